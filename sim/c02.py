"""C02: process-wide state is left as it was found."""
import random

import numpy as np

from . import alloc, boot, cases, catalog, engine, kernel, procstate
from .base import EXC, Check, call_sites, diff, fail_call, fail_callback, hostile, other_case, run_solo, spots
from .c01 import _switch


class C02(Check):
    id = "C02"
    technique = ("deterministic simulation: state snapshot around calls under injected failures of delegated computations and "
                 "callbacks and under seeded thread interleavings")
    k_struct = {"quick": 3, "thorough": 20}
    shrink = ("sched.switch", "ambient")
    rule = ("A run executes one call or 2-3 overlapping ones from a (possibly unusual) ambient configuration, with at most one "
            "injected failure per call, and compares a snapshot of the process-wide state before and after; non-trivial: the "
            "call executed code of the package; distinct: the (cases, ambient, fault site or preemption trace) differ.")

    def plans(self, name, s, rng, tier):
        tags = catalog.OPS[name][2]
        p = rng.randrange(4)
        a, b = [name, s, 0, p], [name, s, 1, p]
        ga = engine.GOLDEN(a, True)
        few = "slow" in tags or "plot" in tags
        for amb in ([], rng.sample(procstate.AMBIENTS, rng.randint(1, 3)), ["err-raise"], ["warn-error"]):
            yield {"check": self.id, "kind": "solo", "case": a, "ambient": amb}
        for _ in range(3):
            h = hostile(rng, [name, s, rng.randrange(2), 0])
            if h is not None:
                yield {"check": self.id, "kind": "solo", "case": h, "ambient": rng.choice([[], [], ["err-raise"], ["warn-error"]])}
        sites = call_sites(ga)
        rng.shuffle(sites)
        for first, last, fname, lin in sites[:(4 if few else 10) if tier == "quick" else 40]:
            amb = rng.sample(procstate.AMBIENTS, 1) if rng.random() < 0.2 else []
            yield {"check": self.id, "kind": "solo", "case": a, "ambient": amb,
                   "call": [rng.choice([first, last]), rng.choice(["MemoryError", "FloatingPointError", "LinAlgError", "ValueError", "KeyboardInterrupt"])]}
        if "cb" in tags and sum(ga["cb"]):
            for _ in range(2):
                i = rng.choice([i for i, c in enumerate(ga["cb"]) if c])
                yield {"check": self.id, "kind": "solo", "case": a, "ambient": [], "cb": [i, rng.randint(1, ga["cb"][i]), rng.choice(sorted(EXC))]}
        if "plot" in tags:
            return
        if "mp" in tags:
            c = other_case(rng, name)
            while "mp" in catalog.OPS[c[0]][2]:
                c = other_case(rng, name)
            yield self.threads([a, c], {"mode": "period", "q": 1})
            return
        n = max(ga["n"], 1)
        q = max(1, n // 3000)
        yield self.threads([a, b], {"mode": "period", "q": q})
        yield self.threads([a, b], {"mode": "period", "q": q * rng.choice([2, 3, 5, 11])}, first=1)
        for _ in range(2 if few else 3):
            sw = [[0, m, 1] for m in spots(ga, rng.randint(1, 3), rng)] + [[1, m, 0] for m in spots(ga, rng.randint(0, 2), rng)]
            pl = self.threads([a, b], {"mode": "points", "switch": sw})
            if sites and rng.random() < 0.5:
                pl["call"] = [rng.choice(sites)[0], "FloatingPointError"]
            yield pl
        c = other_case(rng, name)
        yield self.threads([a, c, b], {"mode": "period", "q": rng.choice([1, 2, 5])})

    def threads(self, cs, sched, first=0):
        return {"check": self.id, "kind": "threads", "cases": cs, "ambient": [], "sched": sched, "first": first}

    def run_plan(self, plan):
        return engine.in_child(_solo if plan["kind"] == "solo" else _threads, plan)


def _verdict(before, after, what):
    ch = procstate.changed(before, after)
    return ("state", f"{what} left changed: {', '.join(ch)}") if ch else None


def _solo(plan):
    engine.quiet()
    call = catalog.build(tuple(plan["case"]))
    procstate.disturb(list(plan["ambient"]))
    before = procstate.snapshot(engine.gt)
    stats, on_call, fired = {}, None, None
    if "call" in plan:
        on_call = fail_call(plan["call"][0], EXC[plan["call"][1]]())
    if "cb" in plan:
        i, k, e = plan["cb"]
        fired = fail_callback(call, i, k, EXC[e]())
    if on_call is not None:
        out, t = run_solo(call, on_call=on_call)
        stats["failing_calls_injected"] = int(t.fired is not None)
        stats["events"] = t.n
    else:
        out = cases.outcome(call)
        if fired is not None:
            stats["failing_callbacks_injected"] = len(fired)
    after = procstate.snapshot(engine.gt)
    stats["solo_runs"] = 1
    stats["raised" if out[0] == "exc" else "returned"] = 1
    if plan["ambient"]:
        stats["unusual_ambient"] = 1
    name = plan["case"][0]
    how = f"{name} ({'raising ' + out[1] if out[0] == 'exc' else 'returning'})"
    return {"viol": _verdict(before, after, how), "stats": stats, "sig": engine.stable_hash(plan)}


def _threads(plan):
    engine.quiet()
    calls = [catalog.build(tuple(c)) for c in plan["cases"]]
    before = procstate.snapshot(engine.gt)
    local = {}

    def body(t):
        e0 = (sorted(np.geterr().items()), id(np.geterrcall()))
        cases.outcome(calls[t.tid])
        local[t.tid] = e0 == (sorted(np.geterr().items()), id(np.geterrcall()))

    tasks = [kernel.Task(i, body) for i in range(len(calls))]
    for t in tasks:
        t.fired = None
    if "call" in plan:
        tasks[0].on_call = fail_call(plan["call"][0], EXC[plan["call"][1]]())
    sim = kernel.Sim(tasks, None, thread_init=alloc.install, limit=4000)
    sched = plan["sched"]
    for t in tasks:
        if sched["mode"] == "period":
            t.plan([], period=sched["q"])
        else:
            t.plan([(n, _switch(target)) for tid, n, target in sched["switch"] if tid == t.tid])
    kernel.monitor(boot.CODES, call="call" in plan)
    sim.run(first=plan.get("first", 0))
    kernel.unmonitor(boot.CODES)
    errs = [t.error for t in tasks if t.error]
    if errs and sim.failure != "deadlock":
        raise RuntimeError(f"harness: task failed: {errs}")
    after = procstate.snapshot(engine.gt)
    names = " and ".join(c[0] for c in plan["cases"])
    viol = _verdict(before, after, f"{names} overlapping in threads")
    if viol is None and not all(local.values()):
        viol = ("state", f"{names} overlapping in threads left changed: numpy error state of the thread")
    return {"viol": viol, "stats": {"thread_runs": 1, "preemptions": sim.switches, "events": sum(t.n for t in tasks),
                                    "failing_calls_injected": sum(t.fired is not None for t in tasks)},
            "sig": engine.stable_hash([plan["cases"], sim.trace])}
