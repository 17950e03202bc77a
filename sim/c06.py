"""C06: a failing user callback fails the call, with its own exception."""
from . import cases, catalog, engine
from .base import EXC, Check, describe, diff


class C06(Check):
    id = "C06"
    technique = "deterministic simulation: user callbacks fail at a seeded invocation with a seeded exception; identity of the surfaced exception, then retry against the reference"
    k_struct = {"quick": 8, "thorough": 60}
    k_screen = {"quick": 30, "thorough": 80}
    tags_any = {"cb"}
    rule = ("A run lets one user callback raise a unique exception object at one of its invocations; the call must end with that "
            "very object, and a retry with the same argument objects must equal the fault-free reference. Non-trivial: the "
            "exception was actually raised; distinct: (case, callback, invocation, exception type) differ.")
    stub = "user callbacks"

    def plans(self, name, s, rng, tier):
        tags = catalog.OPS[name][2]
        a = [name, s, rng.randrange(2), rng.randrange(4)]
        g = engine.GOLDEN(a)
        names = sorted(EXC)
        if name.startswith(("cpa.solve", "beb.solve", "refused.solvers")):
            names.remove("LinAlgError")        # interpreted by scipy's Krylov solver
        per = (3 if "slow" in tags else 10) if tier == "quick" else 30
        for i, c in enumerate(g["cb"]):
            if not c:
                continue
            ks = {1, c, max(1, c - 1), min(c, 2)} | {rng.randint(1, c) for _ in range(per)}
            for k in sorted(ks):
                for e in names if len(ks) <= 2 else rng.sample(names, 4 if tier == "quick" else 8):
                    yield {"check": self.id, "case": a, "cb": [i, k, e], "times": 1}
            # the user interrupts, or the callback keeps failing from then on
            for e in ("KeyboardInterrupt", "RuntimeError", "ValueError", "LinAlgError", "AttributeError", "MemoryError", "FloatingPointError"):
                if e not in names:
                    continue
                yield {"check": self.id, "case": a, "cb": [i, rng.randint(1, c), e], "times": rng.choice([1, 1, 99])}

    def run_plan(self, plan):
        g = engine.GOLDEN(plan["case"])
        return engine.in_child(_fail, plan, g["out"])


def _fail(plan, gold):
    engine.quiet()
    call = catalog.build(tuple(plan["case"]))
    i, k, ename = plan["cb"]
    exc = EXC[ename]()
    fired = []

    def act(probe, args, kwargs):
        fired.append(probe.count)
        raise exc
    acts = {n: act for n in range(k, k + plan["times"])}
    pr = call.probes[i]
    pr.acts = acts
    got = None
    try:
        call()
        ended = "it returned a value"
    except BaseException as e:      # noqa: BLE001
        got = e
        ended = f"it raised {type(e).__name__}({str(e)[:80]!r})"
    name = plan["case"][0]
    what = f"{name}: callback {pr.__name__} raised {ename} at invocation {k}"
    viol = None
    if not fired:
        return {"viol": None, "stats": {"not_reached": 1}, "sig": None}
    if got is not exc:
        viol = ("swallowed" if got is None else "replaced", f"{what}, but {ended}")
    elif len(fired) > 1:
        viol = ("retried", f"{what} and was called again {len(fired) - 1} time(s) before the exception surfaced")
    if viol is None:
        pr.acts = {}
        for p in call.probes:
            p.count = 0
        got = exc = None
        d = diff(cases.outcome(call), gold)
        if d:
            viol = ("retry", f"{what}; calling again with a working callback: {d}")
    return {"viol": viol, "stats": {"callback_failures_injected": 1, "exc_" + ename: 1}, "sig": engine.stable_hash(plan)}
