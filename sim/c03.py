"""C03: a result depends on the arguments only, never on history."""
import gc
import random

import mpmath
import numpy as np

from . import alloc, boot, cases, catalog, engine, kernel
from .base import EXC, Check, call_sites, diff, fail_call, fail_callback, hostile, line_starts, other_case, raise_at, run_alloc_fail, run_solo, spots


class C03(Check):
    id = "C03"
    technique = ("deterministic simulation of call histories (other calls, failures, interrupts, overwritten results, refilled "
                 "argument arrays), each call compared with a run alone in a pristine process")
    k_struct = {"quick": 4, "thorough": 24}
    k_screen = {"quick": 10, "thorough": 60}
    shrink = ("steps",)
    rule = ("A run is a history of 2-14 steps in one process; every call that is not itself hit by a fault is compared with its "
            "run in a pristine process, and every result the caller still holds must stay what it was; non-trivial: at least one "
            "compared call has a predecessor; distinct: the step lists differ.")

    def plans(self, name, s, rng, tier):
        tags = catalog.OPS[name][2]
        few = "slow" in tags or "plot" in tags
        p = rng.randrange(4)
        a, b = [name, s, 0, p], [name, s, 1, p]
        ga = engine.GOLDEN(a)

        def plan(*steps):
            return {"check": self.id, "steps": [list(x) for x in steps]}
        a0, b0 = [name, s, 0, 0], [name, s, 1, 0]
        yield plan(("call", a), ("call", b), ("call", a))
        yield plan(("call", a0), ("scribble",), ("call", a0), ("scribble",), ("call", b0), ("call", a))
        yield plan(("call", a0), ("refill", b0), ("refill", a0))
        # the same numbers, presented differently
        yield plan(*[("call", [name, s, 0, q]) for q in rng.sample(range(6), 4)], ("call", a))
        # only one of the arguments changed, and back
        k0 = rng.randrange(8)
        for k in range(3 if few else 4):
            how = rng.choice(catalog.HOW)
            t = [name, s, 0, rng.choice([0, p]), [k0 + k, how]]
            yield plan(("call", t[:4]), ("call", t), ("call", t[:4]), ("call", b), ("call", t))
        # equal numbers of another type or shape
        for how in ("kind", rng.choice(["axis", "flat"]), "zero"):
            k = rng.randrange(8)
            t = [name, s, 0, 0, [k, how if how != "zero" else "zero-"]]
            o = a0 if how != "zero" else [name, s, 0, 0, [k, "zero+"]]
            yield plan(("call", o), ("call", t), ("call", o)) if rng.random() < 0.7 else plan(("call", t), ("call", o))
        # one of the arguments makes no sense
        h, g = hostile(rng, a0), hostile(rng, b0)
        if h is not None:
            yield plan(("call", h), ("call", a0), ("call", g), ("call", b), ("call", h))
        # same object again, id reuse after the first ones are gone
        yield plan(("call", a), ("again",), ("drop",), ("call", b), ("drop",), ("call", a))
        # one library object, used with other data
        if engine.in_child(_has_objects, a0):
            q = rng.randrange(4)
            own = [name, s, 0, q]
            yield plan(("call", own), ("object", [name, s, 1, q, 0]), ("object", [name, s, 0, q, 0]), ("scribble",), ("object", [name, s, 2, q, 0]))
            yield plan(("call", [name, s, 1, q]), ("object", [name, s, 0, q, 1]), ("scribble",), ("object", [name, s, 1, q, 1]))
            for n in spots(ga, 3, rng):
                yield plan(("call", a), ("interrupt+", [name, s, 1, p, 0], n), ("object", [name, s, 0, p, 0]), ("object", [name, s, 1, p, 0]))
        # a failed call in between
        for _ in range(1 if few else 2):
            for n in spots(ga, 2, rng):
                yield plan(("call", b) if rng.random() < 0.4 else ("rng", 3), ("interrupt", a, n), ("call", a), ("call", b))
        gc_ = engine.GOLDEN(a, True)
        sites = call_sites(gc_)
        for _ in range(1 if few else 2):
            if sites:
                st = rng.choice(sites)
                yield plan(("callfail", a, rng.choice(st[:2]), rng.choice(["MemoryError", "LinAlgError", "ValueError"])), ("call", a), ("call", b))
        if "cb" in tags and sum(ga["cb"]):
            i = rng.choice([i for i, c in enumerate(ga["cb"]) if c])
            k = rng.randint(1, ga["cb"][i])
            yield plan(("cbfail", a, i, k, rng.choice(["Custom", "ValueError", "KeyboardInterrupt"])), ("call", a), ("call", b), ("call", a))
        if ga["allocs"] and not few:
            yield plan(("allocfail", a, rng.randrange(ga["allocs"])), ("call", a), ("call", b))
        # many calls of the same function: other shapes, other values
        others = [rng.randrange(1 << 20) for _ in range(3)]
        seq = [("call", [name, rng.choice(others + [s]), rng.randrange(2), rng.randrange(4)]) for _ in range(4 if few else 8)]
        yield plan(*seq, ("call", a))
        # other functions, above all those of the same module
        fam = [n for n, (f, w, t) in catalog.OPS.items() if n.split(".")[0] == name.split(".")[0] and not t & {"slow", "plot"}]
        seq = [("call", other_case(rng, name)) for _ in range(3)]
        seq += [("call", [rng.choice(fam), rng.randrange(1 << 20), rng.randrange(2), rng.randrange(4)]) for _ in range(4)] if fam else []
        rng.shuffle(seq)
        yield plan(*seq, ("rng", rng.randrange(1000)), ("call", a), ("call", b))
        if "mp" in tags:
            d1, d2 = rng.sample([15, 20, 30, 40], 2)
            yield plan(("mp", d1), ("call", a), ("mp", d2), ("call", a), ("call", b), ("mp", 15), ("call", a))

    def run_plan(self, plan):
        golds, dps = {}, 15
        for st in plan["steps"]:
            if st[0] == "mp":
                dps = st[1]
            if st[0] in ("call", "refill", "object"):
                key = repr([dps, st[1]])
                golds[key] = (engine.GOLDEN(st[1])["out"] if dps == 15 else engine.in_child(_at_dps, st[1], dps))
        return engine.in_child(_history, plan, golds)


def _has_objects(case):
    engine.quiet()
    return catalog.build((*case[:4], case[2])).shared > 0


def _at_dps(case, dps):
    engine.quiet()
    call = catalog.build(tuple(case))
    mpmath.mp.dps = dps
    return cases.outcome(call)


def _history(plan, golds):
    engine.quiet()
    dps = 15
    viol = None
    held = []            # (description, result object, frozen)
    last = None          # last Call
    owner = None         # the call whose objects later ones use
    res = [None]
    stats = {"events": 0}
    compared = 0

    def run(call):
        """outcome, keeping the result object"""
        r = [None]

        def fn():
            r[0] = call()
            return r[0]
        out = cases.outcome(fn)
        return out, r[0]

    for j, st in enumerate(plan["steps"]):
        kind = st[0]
        stats["step_" + kind] = stats.get("step_" + kind, 0) + 1
        if kind in ("call", "again", "refill", "object"):
            if kind == "object":
                case = st[1]
                call = catalog.build(tuple(case[:4]))
                if owner is None:
                    continue
                call = catalog.share(call, owner)
            elif kind == "call":
                call = catalog.build(tuple(st[1]))
                case = st[1]
            elif kind == "again":
                if last is None:
                    continue
                call, case = last[0], last[1]
            else:
                case = st[1]
                if last is None:
                    call = catalog.build(tuple(case))
                else:
                    call = _refilled(last[0], catalog.build(tuple(case)))
                    held = []            # results may legitimately be views of the caller's arrays
            for pr in call.probes:
                pr.count = 0
            out, obj = run(call)
            gold = golds.get(repr([dps, case]))
            if gold is not None:
                compared += 1
                d = diff(out, gold)
                if d and viol is None:
                    viol = ("result", f"step {j} ({kind} {case[0]}): {d}")
            if out[0] == "ret" and not _aliases(obj, call):
                held.append((f"step {j} ({case[0]})", obj, out[1]))
            last = (call, case)
            if kind != "object":
                owner = call
            res[0] = obj
        elif kind == "scribble":
            mine = cases.arrays_in([[c.args, c.kwargs, c.extra] for c in (owner, last and last[0]) if c])
            for arr in cases.arrays_in(res[0]):
                if arr.flags.writeable and arr.dtype != object and not any(np.may_share_memory(arr, m) for m in mine):
                    arr[...] = _junk(arr.dtype)
            held = []
        elif kind == "drop":
            held, owner, last, res[0], call, obj, out = [], None, None, None, None, None, None
            gc.collect()
        elif kind == "rng":
            np.random.seed(st[1])
            np.random.rand(3)
            random.seed(st[1])
            np.set_printoptions(precision=2 + st[1] % 5)
        elif kind == "mp":
            dps = st[1]
            mpmath.mp.dps = dps
        else:
            call = catalog.build(tuple(st[1][:4]))
            if kind == "interrupt+" and owner is not None:
                call = catalog.share(call, owner)
            if kind.startswith("interrupt"):
                _, t = run_solo(call, [(st[2], raise_at(KeyboardInterrupt("injected")))])
                stats["events"] += t.n
                stats["interrupts_injected"] = stats.get("interrupts_injected", 0) + int(t.fired is not None)
            elif kind == "callfail":
                _, t = run_solo(call, on_call=fail_call(st[2], EXC[st[3]]()))
                stats["events"] += t.n
                stats["call_failures_injected"] = stats.get("call_failures_injected", 0) + int(t.fired is not None)
            elif kind == "cbfail":
                f = fail_callback(call, st[2], st[3], EXC[st[4]]())
                cases.outcome(call)
                stats["callback_failures_injected"] = stats.get("callback_failures_injected", 0) + len(f)
            elif kind == "allocfail":
                _, n = run_alloc_fail(call, st[2])
                stats["alloc_failures_injected"] = stats.get("alloc_failures_injected", 0) + int(n > 0)
            call = None
            mpmath.mp.dps = dps      # an interrupt can hit mpmath's own restore; its precision counts as an argument
        if viol:
            break
        for what, obj, frozen in held[-6:]:
            d = cases.same(cases.freeze(obj), frozen, 0.0)
            if d and viol is None:
                viol = ("held", f"the result of {what} changed after step {j} ({kind}): {d}")
        if viol:
            break
    stats["calls_compared"] = compared
    return {"viol": viol, "stats": stats, "sig": engine.stable_hash(plan["steps"])}


def _junk(dt):
    if dt.kind == "b":
        return True
    if dt.kind in "iu":
        return 77
    if dt.kind in "fc":
        return 1.7e77 if dt.itemsize >= 8 and dt != np.complex64 else 1e30
    return 0


def _aliases(obj, call):
    """Whether a result shares memory with what the caller owns (then the caller may change it)."""
    mine = cases.arrays_in([call.args, call.kwargs, call.extra]) + [h[0] for p in call.probes for h in p.held]
    for r in cases.arrays_in(obj):
        for m in mine:
            if np.may_share_memory(r, m):
                return True
    return False


def _only_arrays(x):
    import dataclasses
    if isinstance(x, tuple):
        return all(isinstance(v, np.ndarray) for v in x)
    return dataclasses.is_dataclass(x) and all(isinstance(getattr(x, f.name), np.ndarray) for f in dataclasses.fields(x))


def _refilled(old, new):
    """The caller puts the values of `new` into the arrays it used for `old`, and calls again."""
    def mix(x, y):
        if isinstance(x, np.ndarray) and isinstance(y, np.ndarray) and x.shape == y.shape and x.dtype == y.dtype \
                and x.flags.writeable and x.dtype != object and x.ndim:
            x[...] = y
            return x
        if type(x) is type(y) and type(x).__module__.split(".")[0] == "gftool":
            xs, ys = cases.arrays_in(x), cases.arrays_in(y)
            if xs and len(xs) == len(ys) and all(p.shape == q.shape and p.dtype == q.dtype and p.flags.writeable and p.dtype != object
                                                 for p, q in zip(xs, ys)) and _only_arrays(x):
                for p, q in zip(xs, ys):
                    p[...] = q
                return x
        return y
    new.args = [mix(x, y) for x, y in zip(old.args, new.args)] if len(old.args) == len(new.args) else new.args
    new.kwargs = {k: mix(old.kwargs[k], v) if k in old.kwargs else v for k, v in new.kwargs.items()}
    return new
