"""C05: the caller's data is never modified."""
from . import boot, cases, catalog, engine, kernel
from .base import EXC, Check, call_sites, describe, diff, fail_call, fail_callback, hostile, line_starts, raise_at, run_alloc_fail, run_solo, spots


class C05(Check):
    id = "C05"
    technique = ("deterministic simulation: bytes of all caller-owned data compared around calls that return, fail or are "
                 "interrupted at seeded points; read-only presentation compared with writable one")
    k_struct = {"quick": 5, "thorough": 30}
    rule = ("A run executes one call, unfaulted or with one injected interrupt / failing computation / failing callback / failed "
            "allocation, and compares digests of everything the caller owns (arguments with their base buffers, keyword "
            "dictionaries, objects, arrays handed out by callbacks); read-only runs are compared with the writable reference. "
            "Non-trivial: the package's code ran; distinct: (case, fault) differ.")

    def plans(self, name, s, rng, tier):
        tags = catalog.OPS[name][2]
        few = bool(tags & {"slow", "plot"})
        for v, p in [(0, 0), (1, rng.randint(1, 9)), (0, rng.randint(1, 9))]:
            yield {"check": self.id, "kind": "watch", "case": [name, s, v, p]}
        yield {"check": self.id, "kind": "readonly", "case": [name, s, 0, -1]}
        for _ in range(2 if tier == "quick" else 10):
            h = hostile(rng, [name, s, rng.randrange(2), 0])
            if h:
                yield {"check": self.id, "kind": "watch", "case": h}
        p = rng.randrange(6)
        a = [name, s, 0, p]
        g = engine.GOLDEN(a, True)
        ls = line_starts(g)
        rng.shuffle(ls)
        k = 4 if few else 8 if tier == "quick" else 40
        for n in ls[:k] + spots(g, 2, rng):
            yield {"check": self.id, "kind": "watch", "case": a, "interrupt": n}
        sites = call_sites(g)
        rng.shuffle(sites)
        for st in sites[:k // 2]:
            yield {"check": self.id, "kind": "watch", "case": a, "call": [rng.choice(st[:2]), rng.choice(["MemoryError", "LinAlgError", "FloatingPointError"])]}
        if "cb" in tags and sum(g["cb"]):
            for _ in range(3):
                i = rng.choice([i for i, c in enumerate(g["cb"]) if c])
                yield {"check": self.id, "kind": "watch", "case": a, "cb": [i, rng.randint(1, g["cb"][i]), rng.choice(["Custom", "ValueError", "LinAlgError"])]}
        if g["allocs"] and not few:
            yield {"check": self.id, "kind": "watch", "case": a, "alloc": rng.randrange(g["allocs"])}

    def run_plan(self, plan):
        if plan["kind"] == "readonly":
            name, s, v, _ = plan["case"]
            g = engine.GOLDEN([name, s, v, 0])
            return engine.in_child(_readonly, plan, g["out"])
        return engine.in_child(_watch, plan)


def _changed(call, before):
    for part, d0, obj in before:
        if cases.digest([obj]) != d0:
            return part
    for pr in call.probes:
        for arr, d0 in pr.held:
            if cases.digest([arr]) != d0:
                return f"an array returned by the callback {pr.__name__}"
    return None


def _parts(call):
    """Everything the caller owns, by name.  The list of positional arguments and the dict of keywords belong to the harness,
    their entries to the caller."""
    out = [(f"argument {i}", x) for i, x in enumerate(call.args)]
    out += [(f"keyword {k}", x) for k, x in call.kwargs.items()]
    out += [(f"object {i}", x) for i, x in enumerate(call.extra)]
    return [(n, cases.digest([x]), x) for n, x in out]


def _watch(plan):
    engine.quiet()
    call = catalog.build(tuple(plan["case"]))
    before = _parts(call)
    stats, how = {}, ""
    if "interrupt" in plan:
        out, t = run_solo(call, [(plan["interrupt"], raise_at(KeyboardInterrupt("injected")))])
        stats = {"interrupts_injected": int(t.fired is not None), "events": t.n}
        how = " interrupted"
        if t.fired:
            how = f" interrupted at {engine.where(*t.fired)}"
    elif "call" in plan:
        out, t = run_solo(call, on_call=fail_call(plan["call"][0], EXC[plan["call"][1]]()))
        stats = {"call_failures_injected": int(t.fired is not None), "events": t.n}
        how = " with a failing computation"
    elif "cb" in plan:
        i, k, e = plan["cb"]
        f = fail_callback(call, i, k, EXC[e]())
        out = cases.outcome(call)
        stats = {"callback_failures_injected": len(f)}
        how = " with a failing callback"
    elif "alloc" in plan:
        out, n = run_alloc_fail(call, plan["alloc"])
        stats = {"alloc_failures_injected": int(n > 0)}
        how = " with a failing allocation"
    else:
        out = cases.outcome(call)
        stats = {"plain_runs": 1}
    c = _changed(call, before)
    viol = ("modified", f"{plan['case'][0]}{how} ({out[0]}) modified {c}") if c else None
    return {"viol": viol, "stats": stats, "sig": engine.stable_hash(plan)}


def _readonly(plan, gold):
    engine.quiet()
    call = catalog.build(tuple(plan["case"]))
    out = cases.outcome(call)
    d = diff(out, gold)
    viol = ("readonly", f"{plan['case'][0]} on read-only data: {d}") if d else None
    return {"viol": viol, "stats": {"readonly_runs": 1}, "sig": engine.stable_hash(plan)}
