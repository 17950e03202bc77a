"""C01: calls that overlap in time are isolated from each other."""
from . import alloc, boot, cases, catalog, engine, kernel
from .base import Check, diff, other_case, spots


class C01(Check):
    id = "C01"
    technique = "deterministic thread simulation (baton scheduler at bytecode instructions of the package), seeded preemption search, isolated runs as reference"
    k_struct = {"quick": 4, "thorough": 24}
    shrink = ("sched.switch",)
    rule = ("A run overlaps 2-4 calls (same op with different values, the same argument objects, or other ops), in simulated "
            "threads or nested in a user callback; non-trivial: at least one preemption or nested call happened strictly inside "
            "a call; distinct: the sequence of (task, function, bytecode offset) at the preemptions differs.")

    def wants(self, name, tags):
        return "plot" not in tags

    def plans(self, name, s, rng, tier):
        tags = catalog.OPS[name][2]
        p = rng.randrange(4)
        a, b, b2 = [name, s, 0, p], [name, s, 1, p], [name, s, 2, rng.randrange(4)]
        mp = "mp" in tags
        many = 2 if "slow" in tags or "solver" in tags else 3
        ga, gb = engine.GOLDEN(a), engine.GOLDEN(b)

        def tw():       # the same call but for one argument
            return [*a, [rng.randrange(8), rng.choice(catalog.HOW)]]
        if "cb" in tags and sum(ga["cb"]):
            for _ in range(2):
                i = rng.choice([i for i, c in enumerate(ga["cb"]) if c])
                k = rng.choice([1, rng.randint(1, ga["cb"][i])])
                inner = rng.choice([b, b, other_case(rng, name), tw()])
                yield {"check": self.id, "kind": "nested", "outer": a, "inner": inner, "probe": i, "k": k}
            if engine.in_child(_has_objects, a):        # the object in use is used again inside its own callback
                for k in sorted({1, ga["cb"][i], rng.randint(1, ga["cb"][i])}):
                    yield {"check": self.id, "kind": "nested", "outer": a, "inner": [name, s, rng.choice([1, 2]), p, 0], "probe": i, "k": k, "shared": "objects"}
        if not mp:
            # lockstep and short quanta: both calls walk through the code together
            n = max(ga["n"], gb["n"])
            q = 1 if n < 3000 else max(1, n // 3000)
            yield self.threads([a, b], [[0], [1]], {"mode": "period", "q": q})
            yield self.threads([a, b], [[0], [1]], {"mode": "period", "q": rng.choice([2, 3, 5, 9, 20, 50])})
            yield self.threads([a, tw()], [[0], [1]], {"mode": "period", "q": max(1, q * rng.choice([1, 1, 2, 4]))})
            yield self.threads([a, tw(), tw()], [[0, 1], [1, 0, 2]], {"mode": "points", "switch": [
                [t, n0, 1 - t] for t in range(2) for n0 in spots(ga, 2, rng)]})
            # the very same argument objects in all threads
            yield self.threads([[name, s, 0, rng.choice([0, 0, p])]], [[0], [0]], {"mode": "period", "q": max(1, q * rng.choice([1, 3, 7]))}, shared=True)
            # one library object used by all threads, with other data
            if engine.in_child(_has_objects, a):
                pp = rng.choice([0, p])
                mix = [[name, s, 0, pp], [name, s, 1, pp, 0], [name, s, 2, pp, 0]]
                yield self.threads(mix, [[0, 1], [1, 0]], {"mode": "period", "q": 1}, shared="objects")
                yield self.threads(mix, [[0], [1], [2]], {"mode": "period", "q": rng.choice([1, 2, 4, 9])}, shared="objects")
                for _ in range(2):
                    yield self.threads(mix, [[0, 2], [1]], {"mode": "points", "switch": [[0, n0, 1] for n0 in spots(ga, 2, rng)] +
                                       [[1, n0, 0] for n0 in spots(ga, 2, rng)]}, shared="objects")
            # one call stopped in the middle while another one runs completely
            for _ in range(many):
                sw = [[0, n0, 1] for n0 in spots(ga, rng.randint(1, 3), rng)]
                sw += [[1, n1, 0] for n1 in spots(gb, rng.randint(0, 2), rng)]
                yield self.threads([a, b], [[0], [1]], {"mode": "points", "switch": sw})
            yield self.threads([a, b, b2], [[0, 1], [1, 0], [2]], {"mode": "points", "switch": [
                [t, n, rng.randrange(3)] for t in range(3) for n in spots(ga, 3, rng)]})
            sw = [[0, n0, 1] for n0 in spots(ga, 4, rng)]
            yield self.threads([[name, s, 0, 0]], [[0], [0]], {"mode": "points", "switch": sw}, shared=True)
        # other ops (also multi precision against everything else)
        c, d = other_case(rng, name), other_case(rng, name)
        if mp:
            while "mp" in catalog.OPS[c[0]][2]:
                c = other_case(rng, name)
            yield self.threads([a, c], [[0], [1]], {"mode": "period", "q": 1})
            yield self.threads([a, c, b], [[0, 2], [1, 1]], {"mode": "points", "switch": [
                [t, n, 1 - t] for t in range(2) for n in spots(ga, 3, rng)]})
        else:
            cs, tasks = [a, c, b], [[0], [1], [2]]
            if "mp" in catalog.OPS[d[0]][2] and "mp" in catalog.OPS[c[0]][2]:
                d = b
            cs.append(d)
            tasks.append([3])
            yield self.threads(cs, tasks, {"mode": "period", "q": rng.choice([1, 2, 3, 7, 15])})

    def threads(self, cs, tasks, sched, shared=False):
        return {"check": self.id, "kind": "threads", "cases": cs, "tasks": tasks, "sched": sched, "shared": shared}

    def run_plan(self, plan):
        if plan["kind"] == "nested":
            go, gi = engine.GOLDEN(plan["outer"]), engine.GOLDEN(plan["inner"])
            return engine.in_child(_nested, plan, go["out"], gi["out"])
        golds = [engine.GOLDEN(c) for c in plan["cases"]]
        return engine.in_child(run_threads, plan, [g["out"] for g in golds])

    def minimise(self, plan, verdict, budget=150):
        if plan["kind"] == "threads" and plan["sched"]["mode"] == "period" and verdict.get("log"):
            exact = dict(plan)
            exact["sched"] = {"mode": "points", "switch": [list(x) for x in verdict["log"]]}
            v = self.run_plan(exact)
            if v.get("viol") and v["viol"][0] == verdict["viol"][0]:
                plan = exact
        return super().minimise(plan, verdict, budget)


def run_threads(plan, golds, check=None):
    """Executed in a forked child: the simulated threads."""
    engine.quiet()
    builds = {}
    steps = []
    for tid, idxs in enumerate(plan["tasks"]):
        mine = []
        for i in idxs:
            if plan.get("shared") == "objects":
                owner = builds.setdefault(0, catalog.build(tuple(plan["cases"][0])))
                mine.append((i, catalog.share(catalog.build(tuple(plan["cases"][i])), owner)))
            elif plan.get("shared"):
                if i not in builds:
                    builds[i] = catalog.build(tuple(plan["cases"][i]))
                mine.append((i, builds[i]))
            else:
                mine.append((i, catalog.build(tuple(plan["cases"][i]))))
        steps.append(mine)
    outs = {}
    inside = []

    def body(t):
        for j, (i, call) in enumerate(steps[t.tid]):
            t.call_start = t.n
            outs[t.tid, j] = (i, cases.outcome(call))

    tasks = [kernel.Task(i, body) for i in range(len(steps))]
    limit = 4000
    sim = kernel.Sim(tasks, None, thread_init=alloc.install, limit=limit)
    sched = plan["sched"]
    if sched["mode"] == "period":
        for t in tasks:
            t.plan([], period=sched["q"])
    else:
        for t in tasks:
            acts = [(n, _switch(target)) for tid, n, target in sched["switch"] if tid == t.tid]
            t.plan(acts)
    kernel.monitor(boot.CODES)
    sim.run(first=plan.get("first", 0))
    kernel.unmonitor(boot.CODES)
    viol = None
    if sim.failure == "deadlock":
        viol = ("deadlock", "the overlapping calls block each other for ever")
    errs = [t.error for t in tasks if t.error]
    if errs and viol is None:
        raise RuntimeError(f"harness: task failed: {errs}")
    if viol is None:
        for (tid, j), (i, out) in sorted(outs.items()):
            d = diff(out, golds[i])
            if d:
                viol = ("result", f"{plan['cases'][i][0]} (task {tid}): {d}")
                break
    ev = sum(t.n for t in tasks)
    stats = {"events": ev, "preemptions": sim.switches, "thread_runs": 1, "calls": len(outs)}
    if plan.get("shared"):
        stats["shared_object_runs" if plan["shared"] == "objects" else "shared_argument_runs"] = 1
    return {"viol": viol, "stats": stats, "log": sim.log if viol else None,
            "sig": engine.stable_hash([plan["cases"], sim.trace]) if sim.switches else None}


def _has_objects(case):
    engine.quiet()
    return catalog.build((*case[:4], case[2])).shared > 0


def _switch(target):
    def act(task, code, offset):
        if kernel.SIM is not None:
            kernel.SIM.preempt(task, code, offset, target)
    return act


def _nested(plan, gold_outer, gold_inner):
    engine.quiet()
    outer = catalog.build(tuple(plan["outer"]))
    inner = catalog.share(catalog.build(tuple(plan["inner"][:4])), outer) if plan.get("shared") else catalog.build(tuple(plan["inner"]))
    got = []

    def act(probe, args, kwargs):
        got.append(cases.outcome(inner))
    outer.probes[plan["probe"]].acts[plan["k"]] = act
    out = cases.outcome(outer)
    viol = None
    if not got:
        return {"viol": None, "stats": {"nested_not_reached": 1}, "sig": None}
    d = diff(got[0], gold_inner)
    if d:
        viol = ("result", f"nested {plan['inner'][0]} inside {plan['outer'][0]}: {d}")
    else:
        d = diff(out, gold_outer)
        if d:
            viol = ("result", f"{plan['outer'][0]} with a nested {plan['inner'][0]} in its callback: {d}")
    return {"viol": viol, "stats": {"nested_calls": 1, "calls": 2}, "sig": engine.stable_hash(plan)}
