"""C14: objects and results survive copying, serialisation and the death of their process."""
import copy
import pickle

import numpy as np

from . import boot, cases, catalog, engine, kernel
from .base import Check, describe, diff, line_starts, raise_at, run_solo, spots

HOW = ("pickle2", "pickle3", "pickle4", "pickle5", "copy", "deepcopy")
Z = np.array([0.3 + 0.2j, -1.1 + 0.7j, 2.5j])


class C14(Check):
    id = "C14"
    technique = ("deterministic simulation of checkpoints and restarts: objects are serialised or copied at seeded instructions of calls that "
                 "use them, the process dies, a pristine process restores them and repeats the work")
    k_struct = {"quick": 4, "thorough": 30}
    k_screen = {"quick": 14, "thorough": 60}
    spice = False
    rule = ("A run takes a checkpoint (pickle of a protocol, copy or deep copy) of the library objects a call uses, at one instruction of "
            "that call, before it, or after it returned, raised or was interrupted, drops the process and lets a pristine process restore the "
            "checkpoint, optionally torn, and make the call on the restored objects; or it does so with what a call returned or raised, and "
            "compares every use of the restored result with the original. Non-trivial: a checkpoint was taken; distinct: (case, kind, point) differ.")
    stub = "the disk (checkpoints are byte strings that alone survive the simulated process)"

    def wants(self, name, tags):
        return "plot" not in tags

    def plans(self, name, s, rng, tier):
        tags = catalog.OPS[name][2]
        a = [name, s, 0, rng.randrange(3)]
        mk = lambda **k: {"check": self.id, "case": a, **k}     # noqa: E731
        for how in rng.sample(HOW, 2 if tags & {"slow", "solver"} else 3):
            yield mk(kind="result", how=how)
        if name not in USERS:
            return
        g = engine.GOLDEN(a)
        for how in HOW:
            yield mk(kind="object", how=how, at=0)
            yield mk(kind="object", how=how, at=-1)
            if rng.random() < 0.5:
                yield mk(kind="object", how=how, at=-1, interrupt=rng.randint(1, max(1, g["n"])))
        pts = line_starts(g)
        rng.shuffle(pts)
        for n in sorted(set(pts[:8 if tier == "quick" else 40] + spots(g, 6, rng))):
            yield mk(kind="object", how=rng.choice(HOW), at=n)
        yield mk(kind="torn", how=rng.choice(HOW[:4]), cut=rng.random())

    def run_plan(self, plan):
        if plan["kind"] == "result":
            first = engine.in_child(_result, plan)
            blob, uses, out = first
            v = engine.in_child(_again, plan, blob, uses, out)
        else:
            g = engine.GOLDEN(plan["case"])
            blob, taken, where = engine.in_child(_checkpoint, plan)
            v = engine.in_child(_resume, plan, blob, where, g["out"]) if taken else {"viol": None, "stats": {"no_object": 1}, "sig": None}
            if isinstance(blob, str):
                v = {"viol": ("checkpoint", blob), "stats": {}, "sig": None}
        return v


USERS = {"basis.ZeroPole.eval", "basis.ZeroPole.to_ratpol", "basis.RatPol.eval", "basis.PoleGf.methods", "matrix.Decomposition.reconstruct",
         "hermpade.Hermite2.methods", "pade.Averager", "pade.Mod_Averager", "pade.averaged", "pade.avg_no_neg_imag",
         "polepade.PadeApprox", "beb.self_root_eq", "beb.restrict_self_root_eq", "beb.SpecDec"}


def save(obj, how):
    if how.startswith("pickle"):
        return pickle.dumps(obj, protocol=int(how[6:]))
    return pickle.dumps(copy.copy(obj) if how == "copy" else copy.deepcopy(obj))


# ------------------------------------------------------------------ library objects among the arguments
def slots(call):
    """(container, key) of every library object the call is made on."""
    out = [(call.args, i) for i, x in enumerate(call.args) if data_object(x)]
    out += [(call.kwargs, k) for k, x in call.kwargs.items() if data_object(x)]
    return out


def data_object(x):
    return catalog.is_object(x) and not callable(x)


def owner(call):
    """The object a bound method belongs to."""
    me = getattr(call.fn, "__self__", None)
    return me if me is not None and data_object(me) else None


def _take(call, how):
    me = owner(call)
    return save([box[k] for box, k in slots(call)] + ([me] if me is not None else []), how)


def _put(call, objs):
    sl = slots(call)
    for (box, k), x in zip(sl, objs):
        box[k] = x
    if len(objs) > len(sl):
        call.fn = getattr(objs[-1], call.fn.__name__)


def _checkpoint(plan):
    engine.quiet()
    call = catalog.build(tuple(plan["case"]))
    if not slots(call) and owner(call) is None:
        return b"", False, ""
    name, at, how = plan["case"][0], plan.get("at", 0), plan["how"]
    got, where = [], ""

    def act(task=None, code=None, offset=None):
        try:
            got.append(_take(call, how))
        except Exception as e:          # noqa: BLE001
            got.append(f"{name}: {how} of its objects fails with {type(e).__name__}: {e}")
        if code is not None:
            task.fired = (code, offset)
    if at == 0:
        act()
    elif at > 0:
        _, t = run_solo(call, [(at, act)])
        where = f" at {engine.where(*t.fired)}" if t.fired else ""
    else:
        if "interrupt" in plan:
            run_solo(call, [(plan["interrupt"], raise_at(KeyboardInterrupt("injected")))])
        else:
            cases.outcome(call)
        act()
    return (got[0], True, where) if got else (b"", False, "")


def _resume(plan, blob, where, gold):
    engine.quiet()
    call = catalog.build(tuple(plan["case"]))
    name = plan["case"][0]
    stats = {"checkpoints": 1, "restarts": 1, plan["how"]: 1}
    if plan["kind"] == "torn":
        stats["torn_checkpoints"] = 1
        blob = blob[:int(len(blob) * plan["cut"])]
    try:
        objs = pickle.loads(blob)
    except Exception as e:              # noqa: BLE001
        ok = plan["kind"] == "torn"
        return {"viol": None if ok else ("restore", f"{name}: restoring a {plan['how']} taken{where} fails with {type(e).__name__}: {e}"),
                "stats": stats, "sig": engine.stable_hash(plan)}
    own = catalog.build(tuple(plan["case"]))
    own = [box[k] for box, k in slots(own)] + ([owner(own)] if owner(own) is not None else [])
    _put(call, objs)
    out = cases.outcome(call)
    d = diff(out, gold)
    viol = ("result", f"{name} on objects restored from a {plan['how']} taken{where}: {d}") if d else None
    if viol is None:
        with np.errstate(all="ignore"):
            viol = compare(uses(own, path=name), uses(objs, path=name), f"restored from a {plan['how']} taken{where}")
    if viol is None and plan["how"] == "deepcopy":
        viol = _independent(plan, call)
    return {"viol": viol, "stats": stats, "sig": engine.stable_hash(plan)}


def _independent(plan, call):
    """Overwriting the arrays of a deep copy leaves the original alone."""
    objs = [box[k] for box, k in slots(call)] + ([owner(call)] if owner(call) is not None else [])
    before = cases.digest(objs)
    for arr in cases.arrays_in(copy.deepcopy(objs)):
        if arr.flags.writeable and arr.size:
            arr[...] = 7
    return ("shared", f"{plan['case'][0]}: overwriting a deep copy changed the original") if cases.digest(objs) != before else None


# ------------------------------------------------------------------ results
def uses(x, out=None, path="result", depth=0):
    """What a caller may do with a result: every method of every library object in it."""
    out = [] if out is None else out
    if depth > 4 or len(out) > 60:
        return out
    t = type(x)
    if t.__module__.split(".")[0] == "gftool":
        for label, fn in METHODS:
            if _has(t, label):
                out.append((f"{path}.{label}", cases.outcome(lambda fn=fn: fn(x))))
        out.append((f"len({path})", cases.outcome(lambda: len(x))))
        out.append((f"type({path})", ("ret", ("py", "str", f"{t.__module__}.{t.__qualname__}"))))
    if isinstance(x, (tuple, list)):
        for i, e in enumerate(x):
            uses(e, out, f"{path}[{i}]", depth + 1)
    return out


def compare(before, after, text):
    for (p, x), (q, y) in zip(before, after):
        d = diff(y, x) if p == q else f"{q} instead of {p}"
        if d:
            return "use", f"{p} {text}: {d}"
    return ("use", f"{after[-1:] or before[-1:]}: other parts {text}") if len(before) != len(after) else None


def _has(t, label):
    return hasattr(t, label.split("(")[0]) or label.split("(")[0] in getattr(t, "__dataclass_fields__", ())


METHODS = [("eval_z()", lambda x: x.eval_z(Z)), ("moments()", lambda x: x.moments([1, 2, 3])), ("eval_tau()", lambda x: x.eval_tau(np.linspace(0, 2, 5), beta=2.0)),
           ("eval_ret_t()", lambda x: x.eval_ret_t(np.linspace(0, 2, 5))), ("occ()", lambda x: x.occ(3.0)),
           ("reconstruct()", lambda x: x.reconstruct()), ("reconstruct(diag)", lambda x: x.reconstruct(kind="diag")),
           ("reconstruct(inv)", lambda x: x.reconstruct(1 / (x.eig + 0.3j))), ("u", lambda x: x.u), ("uh", lambda x: x.uh), ("s", lambda x: x.s),
           ("truncate()", lambda x: x.truncate()), ("partition()", lambda x: x.partition()), ("is_trunacted", lambda x: x.is_trunacted),
           ("eval()", lambda x: x.eval(Z)), ("reciprocal()", lambda x: x.reciprocal(Z)), ("eval_polefct()", lambda x: x.eval_polefct(Z)),
           ("eval_zeropole()", lambda x: x.eval_zeropole(Z)), ("eval_branches()", lambda x: x.eval_branches(Z)), ("__repr__()", repr), ("__str__()", str),
           ("islice()", lambda x: list(x.islice(range(60)))), ("slice", lambda x: repr(x.slice)), ("x", lambda x: x.x), ("err", lambda x: x.err),
           ("mu", lambda x: x.mu), ("_asdict()", lambda x: x._asdict())]


def _result(plan):
    engine.quiet()
    call = catalog.build(tuple(plan["case"]))
    name = plan["case"][0]
    try:
        r = call()
        good = True
    except BaseException as e:          # noqa: BLE001
        if isinstance(e, cases.BudgetExceeded):
            raise
        r, good = e.with_traceback(None), False
    with np.errstate(all="ignore"):
        u = uses(r, path=name) if good else []
    gold = ("ret", cases.freeze(r)) if good else (*cases.exc_outcome(r), sorted(vars(r)))
    try:
        blob = save(r, plan["how"])
    except Exception as e:              # noqa: BLE001
        blob = f"{name}: {plan['how']} of what it {'returned' if good else 'raised'} fails with {type(e).__name__}: {e}"
    return blob, u, gold


def _again(plan, blob, before, gold):
    engine.quiet()
    name, how = plan["case"][0], plan["how"]
    stats = {"results_checkpointed": 1, "restarts": 1, how: 1}
    sig = engine.stable_hash(plan)
    if isinstance(blob, str):
        return {"viol": ("checkpoint", blob), "stats": stats, "sig": sig}
    try:
        r = pickle.loads(blob)
    except Exception as e:              # noqa: BLE001
        return {"viol": ("restore", f"{name}: restoring a {how} of what it {'returned' if gold[0] == 'ret' else 'raised'} fails with {type(e).__name__}: {e}"),
                "stats": stats, "sig": sig}
    viol = None
    if gold[0] == "exc":
        stats["exceptions_checkpointed"] = 1
        out = (*cases.exc_outcome(r), sorted(vars(r)))
        if out != gold:
            viol = ("exception", f"{name}: the exception became {out[1:]} from {gold[1:]} by {how}")
    else:
        d = cases.same(cases.freeze(r), gold[1])
        if d:
            viol = ("content", f"{name}: the result changed by {how}: {d}")
        else:
            with np.errstate(all="ignore"):
                viol = compare(before, uses(r, path=name), f"after {how} and restart")
            stats["uses_compared"] = len(before)
    return {"viol": viol, "stats": stats, "sig": sig}
