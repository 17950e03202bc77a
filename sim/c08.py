"""C08: a failing resource never becomes a wrong result."""
import numpy as np

from . import cases, catalog, engine
from .base import EXC, Check, call_sites, describe, diff, fail_call, line_starts, raise_at, run_alloc_fail, run_solo, spots

ROUND = 1e-6       # a fall-back algorithm may round differently


class C08(Check):
    id = "C08"
    spice = False
    technique = ("deterministic simulation with fault injection: interrupts at seeded instructions, memory exhaustion at seeded "
                 "allocations and operations, failing linear-algebra kernels; outcome against the fault-free reference")
    k_struct = {"quick": 5, "thorough": 30}
    rule = ("A run injects one interrupt, one failing array allocation (or a burst of them), one operation that runs out of memory, "
            "or a linear-algebra kernel failing once or for good into one call. Non-trivial: the fault took place; distinct: "
            "(case, fault) differ.")

    def plans(self, name, s, rng, tier):
        tags = catalog.OPS[name][2]
        few = bool(tags & {"slow", "plot"})
        a = [name, s, rng.randrange(2), rng.randrange(4)]
        g = engine.GOLDEN(a, True)
        k = 4 if few else 12 if tier == "quick" else 60
        ls = line_starts(g)
        rng.shuffle(ls)
        for n in ls[:k] + spots(g, 4, rng):
            yield {"check": self.id, "case": a, "interrupt": [n, rng.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError"])]}
        sites = call_sites(g)
        lin = [x for x in sites if x[3]]
        rng.shuffle(sites)
        for st in sites[:k]:
            yield {"check": self.id, "case": a, "call": [rng.choice(st[:2]), "MemoryError"]}
        for st in lin[:k]:
            yield {"check": self.id, "case": a, "call": [rng.choice(st[:2]), "LinAlgError"]}
        names = sorted({x[2] for x in lin})
        for nm in names:
            yield {"check": self.id, "case": a, "kernel": [nm, rng.choice([0, 0, 1])]}
        if g["allocs"]:
            for _ in range(2 if few else 6 if tier == "quick" else 30):
                yield {"check": self.id, "case": a, "alloc": [rng.randrange(g["allocs"]), rng.choice([1, 1, 2, 1000000])]}

    def run_plan(self, plan):
        g = engine.GOLDEN(plan["case"], True)
        v = engine.in_child(_fault, plan, g["out"])
        if v["viol"] and v["viol"][0] == "wrong" and ("kernel" in plan or plan.get("call", [0, 0])[1] == "LinAlgError"):
            # a fall-back algorithm cannot agree where the fault-free result is itself made of rounding errors
            if engine.in_child(_ill_posed, plan["case"], g["out"]):
                v = {"viol": None, "stats": {"ill_posed_skipped": 1}, "sig": None}
        return v


def _scale(x):
    if isinstance(x, tuple):
        return max([_scale(y) for y in x], default=0.0)
    if isinstance(x, np.ndarray) and x.dtype.kind in "fc":
        f = np.abs(x[np.isfinite(x)])
        return float(f.max()) if f.size else 0.0
    return 0.0


def _near(a, b, lim):
    """As cases.same, with one absolute limit for all arrays of the result."""
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for x, y in zip(a, b):
            d = _near(x, y, lim)
            if d:
                return d
        return None
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and a.dtype.kind in "fc":
        fa, fb = np.isfinite(a), np.isfinite(b)
        if (fa == fb).all() and (not fa.any() or np.abs(a[fa] - b[fb]).max() <= lim):
            return None
    return cases.same(a, b, ROUND)


def rounded(out, gold):
    if out[0] == "ret" and gold[0] == "ret":
        return _near(out[1], gold[1], ROUND * (1 + _scale(gold[1])))
    return diff(out, gold)


def _ill_posed(case, gold):
    """Does the fault-free result react to a change of the input at rounding level?"""
    engine.quiet()
    for trial in range(4):
        call = catalog.build(tuple(case))
        rng = np.random.default_rng(trial)

        def shake(x):
            if isinstance(x, np.ndarray) and x.dtype.kind in "fc" and x.size:
                return np.array(x * (1 + 1e-13 * rng.uniform(-1, 1, x.shape))).astype(x.dtype)
            if isinstance(x, float):
                return x * (1 + 1e-13 * rng.uniform(-1, 1))
            return x
        call.args = [shake(x) for x in call.args]
        call.kwargs = {k: shake(x) for k, x in call.kwargs.items()}
        out = cases.outcome(call)
        if out[0] != gold[0] or rounded(out, gold):
            return True
    return False


def _in_chain(e, exc):
    seen = set()
    while e is not None and id(e) not in seen:
        if e is exc:
            return True
        seen.add(id(e))
        e = e.__cause__ or e.__context__
    return False


def _fault(plan, gold):
    engine.quiet()
    call = catalog.build(tuple(plan["case"]))
    name = plan["case"][0]
    raised = []

    def fn():
        try:
            return call()
        except BaseException as e:
            raised.append(e)
            raise
    sig = engine.stable_hash(plan)
    if "alloc" in plan:
        after, length = plan["alloc"]
        out, n = run_alloc_fail(fn, after, length)
        viol = None
        if out[0] == "ret":
            d = rounded(out, gold)
            if d:
                viol = ("wrong", f"{name} returned a wrong result although allocation {after + 1} failed: {d}")
        elif out[1] in ("NameError", "UnboundLocalError", "AttributeError") and out[1:] != gold[1:]:
            viol = ("broken", f"{name}: allocation {after + 1} failed: {describe(out)}")
        return {"viol": viol, "stats": {"allocations_failed": int(n > 0)}, "sig": sig if n else None}
    if "interrupt" in plan:
        n, ename = plan["interrupt"]
        exc = EXC[ename]()
        out, t = run_solo(fn, [(n, raise_at(exc))])
        kind, at = ("interrupts" if ename == "KeyboardInterrupt" else "memory_errors_at_instructions"), t.fired
    elif "call" in plan:
        k, ename = plan["call"]
        exc = EXC[ename]()
        out, t = run_solo(fn, on_call=fail_call(k, exc))
        kind, at = ("memory_errors_in_operations" if ename == "MemoryError" else "linalg_failures"), t.fired
    else:
        nm, skip = plan["kernel"]
        ename = "LinAlgError"
        exc = EXC[ename]()
        seen = [0]

        def on_call(t, code, offset, func):
            if getattr(func, "__name__", None) == nm and engine._is_linalg(func):
                seen[0] += 1
                if seen[0] > skip:
                    t.fired = (code, offset)
                    raise exc
        out, t = run_solo(fn, on_call=on_call)
        kind, at = "linalg_kernel_outages", t.fired
    stats = {kind: int(at is not None), "events": t.n}
    viol = None
    if gold[0] != "ret" and out[0] == "ret" and ename == "LinAlgError":
        pass                      # a fall-back got further than the call does without the fault
    elif at is not None:
        what = f"{name}: {ename} injected at {engine.where(*at)}"
        if out[0] == "ret":
            lost = any(u is exc for u in engine.UNRAISABLE)     # Python could not deliver it (finaliser)
            d = rounded(out, gold)
            if d:
                viol = ("wrong", f"{what}: it returned a different result: {d}")
            elif ename != "LinAlgError" and not lost:
                viol = ("swallowed", f"{what}: it was swallowed and a value returned")
        elif ename == "LinAlgError":
            if raised and isinstance(raised[0], (NameError, UnboundLocalError)):
                viol = ("broken", f"{what}: {describe(out)}")
        else:
            e = raised[0] if raised else None
            if e is not exc and not (type(e) is type(exc) and _in_chain(e, exc)):
                if not any(u is exc for u in engine.UNRAISABLE):
                    viol = ("replaced", f"{what}: it surfaced as {describe(out)}")
    return {"viol": viol, "stats": stats, "sig": sig if at is not None else None}
