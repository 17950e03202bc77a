"""C04: nothing observable depends on uninitialised memory."""
from . import alloc, cases, catalog, engine
from .base import Check, describe, hostile


class C04(Check):
    id = "C04"
    technique = ("deterministic simulation of the allocator: every fresh array buffer is filled with adversarial bytes, "
                 "results and warnings compared across fills")
    k_struct = {"quick": 8, "thorough": 40}
    shrink = ("fills",)
    rule = ("A run executes one call in a pristine process with all fresh array memory holding one fill pattern (quiet and "
            "signalling NaN, inf, huge, denormal, ones, random bits, ...); result, exception and warnings are compared with the "
            "zero-filled run; non-trivial: the call allocated array memory; distinct: (case, fill) differ.")
    stub = "numpy's data allocator (content of fresh memory); malloc inside C libraries is real"

    def plans(self, name, s, rng, tier):
        tags = catalog.OPS[name][2]
        fills = [f for f in alloc.FILLS if f != "zero"]
        if tier == "quick" and tags & {"slow", "plot"}:
            fills = ["ones", "huge", "snan"]
        for p in (rng.randrange(4),) if tier == "quick" else (0, 1, 2):
            case = [name, s, rng.randrange(2), p]
            for f in fills:
                yield {"check": self.id, "case": case, "fills": [f], "fseed": rng.randrange(1 << 16)}

        for _ in range(4 if tier == "quick" else 12):
            h = hostile(rng, [name, s, rng.randrange(2), 0])
            for f in rng.sample(fills, 2) if h else ():
                yield {"check": self.id, "case": h, "fills": [f], "fseed": rng.randrange(1 << 16)}

    def run_plan(self, plan):
        g = engine.GOLDEN(plan["case"])
        for f in plan["fills"]:
            out, warn, n = engine.in_child(_filled, plan["case"], f, plan["fseed"])
            viol = None
            name = plan["case"][0]
            if out[0] != g["out"][0] or (out[0] == "exc" and out != g["out"]):
                viol = ("outcome", f"{name}: {describe(out)} with {f}-filled memory, {describe(g['out'])} with zeros")
            elif out[0] == "ret":
                d = cases.same(out[1], g["out"][1], 1e-12)
                if d:
                    viol = ("result", f"{name} with {f}-filled memory: {d}")
            if viol is None and sorted(set(warn)) != sorted(set(g["warn"])):
                extra = sorted(set(warn) ^ set(g["warn"]))
                viol = ("warnings", f"{name} with {f}-filled memory: warnings differ from zero-filled memory: {extra[:2]}")
            return {"viol": viol, "stats": {"runs_" + f: 1, "arrays_filled": n},
                    "sig": engine.stable_hash([plan["case"], f, plan["fseed"]]) if n else None}
        return {"viol": None, "stats": {}, "sig": None}


def _filled(case, f, seed):
    engine.quiet()
    call = catalog.build(tuple(case))
    engine.WARNED.clear()
    alloc.fail(-1)
    alloc.fill(f, seed)
    out = cases.outcome(call)
    n = alloc.count()
    alloc.fill("zero")
    return out, list(engine.WARNED), n
