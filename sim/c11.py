"""C11: degraded environments give the same results."""
import json
import os
import pickle
import subprocess
import sys

from . import boot, catalog, engine, variant
from .base import RTOL, Check, Result, describe, diff
from .c08 import rounded

VARIANTS = {            # name: (interpreter flags, import faults, environment)
    "no_numexpr": ([], "no_numexpr", {}),
    "no_matplotlib": ([], "no_mpl", {}),
    "no_quad": ([], "no_quad", {}),
    "O": (["-O"], "", {}),
    "OO": (["-OO"], "", {}),
    "hash1": ([], "", {"PYTHONHASHSEED": "1"}),
    "hash77": ([], "", {"PYTHONHASHSEED": "77"}),
    "bare": (["-OO"], "no_numexpr no_mpl no_quad", {"PYTHONHASHSEED": "5"}),
}


def spawn(name, cases, shake=0):
    flags, faults, env = VARIANTS[name]
    e = dict(os.environ)
    e.update(env)
    p = subprocess.run([sys.executable, "-B", *flags, "-m", "sim.variant"], input=json.dumps({"variant": faults, "cases": cases, "shake": shake}).encode(),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                       timeout=600)
    if p.returncode != 0 and not p.stdout:
        return ("import", p.stderr.decode(errors="replace")[-2000:])
    return pickle.loads(p.stdout)


class C11(Check):
    id = "C11"
    spice = False
    technique = ("simulation of degraded environments by import faults and interpreter modes in real interpreters; seeded workload "
                 "compared with the undegraded interpreter")
    rule = ("A run executes one case in one degraded interpreter and in the undegraded one and compares outcomes to rounding accuracy. "
            "Non-trivial: the case returned a value or raised in the undegraded interpreter (assertion failures and plots are left out where "
            "the variant removes them); distinct: (variant, case) differ.")
    stub = "import machinery (missing optional packages and numpy types), interpreter flags, hash seed"
    chunks = 6

    def units(self, tier, seed):
        reps = {"quick": 1, "thorough": 10}[tier]
        return [(self.id, tier, seed, v, c, r) for r in range(reps) for v in VARIANTS for c in range(self.chunks)]

    def run_unit(self, unit):
        _, tier, seed, v, c, r = unit
        rng = engine.rng_for(self.id, seed, c, r)          # the same cases for every variant
        res = Result()
        names = [n for i, n in enumerate(sorted(catalog.OPS)) if i % self.chunks == c]
        todo = []
        for n in names:
            tags = catalog.OPS[n][2]
            if "plot" in tags and "no_mpl" in VARIANTS[v][1]:
                continue
            k = 2 if tags & {"slow", "plot"} else 16 if tier == "quick" else 60
            todo += [[n, rng.randrange(1 << 20), rng.randrange(3), rng.randrange(5)] for _ in range(k)]
        got = spawn(v, todo)
        if got[0] == "import":
            plan = {"check": self.id, "variant": v, "case": todo[0]}
            res.add(plan, {"viol": ("import", f"variant {v}: the library cannot be imported: {got[1][-400:]}"), "stats": {}, "sig": None})
            return res.dump()
        for case, out in zip(todo, got[1]):
            plan = {"check": self.id, "variant": v, "case": case}
            res.add(plan, self.judge(v, case, out), sample=True)
            if len(res.violations) > 1:
                break
        return res.dump()

    def run_plan(self, plan):
        got = spawn(plan["variant"], [plan["case"]])
        if got[0] == "import":
            return {"viol": ("import", f"variant {plan['variant']}: the library cannot be imported: {got[1][-400:]}"), "stats": {}, "sig": None}
        return self.judge(plan["variant"], plan["case"], got[1][0])

    def judge(self, v, case, out):
        base = variant.safe(variant._case, case, 0)
        stats = {"cases_" + v: 1}
        sig = engine.stable_hash([v, case])
        if base[0] == "died":
            if base[1] == "error" and out[0] == "died":
                return {"viol": None, "stats": {"inputs_not_constructible": 1}, "sig": None}
        flags = VARIANTS[v][0]
        if flags and base[0] == "exc" and base[1] == "builtins.AssertionError":
            return {"viol": None, "stats": {"assertion_stripped": 1}, "sig": None}
        if flags and base[0] == "died" and "AssertionError" in base[2]:
            return {"viol": None, "stats": {"assertion_stripped": 1}, "sig": None}
        viol = None
        exact = v.startswith("hash") or v in ("O", "OO", "no_matplotlib")
        if out[0] == "died" or base[0] == "died":
            if out != base:
                viol = ("differs", f"{case[0]} under {v}: {out[1:]} instead of {base[1:] if base[0] == 'died' else describe(base)}")
        else:
            d = diff(out, base, RTOL) if exact else rounded(out, base)
            if d:
                viol = ("differs", f"{case[0]} under {v}: {d}")
        if viol and not exact and out[0] == base[0] == "ret":
            for k in (1, 2, 3):
                sh = variant.safe(variant._case, case, k)
                if sh[0] != "ret" or rounded(sh, base):
                    return {"viol": None, "stats": {"ill_posed_skipped": 1}, "sig": None}
        return {"viol": viol, "stats": stats, "sig": sig}
