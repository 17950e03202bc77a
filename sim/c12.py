"""C12: the chemical-potential search always ends, within a bounded effort."""
import math
import random

import numpy as np

from . import cases, engine
from .base import EXC, Check, Result
from .c07 import _verify, hilb

HARD = 20000


class C12(Check):
    id = "C12"
    spice = False
    technique = ("deterministic simulation of the search against seeded adversarial occupation functions (stateless and history-dependent), "
                 "with transient and lasting faults; evaluation counting as bounded-progress oracle")
    rule = ("A run performs one chemical-potential search on a seeded occupation function of one of the classes never (no bracket), good "
            "(monotonic, crossing within reach), adverse (anything, also depending on the history of evaluations), possibly with faulty "
            "evaluations. Non-trivial: more than one evaluation; distinct: (function, options, fault) differ.")
    stub = "user callback (occupation function)"
    shrink = ("faults",)

    def units(self, tier, seed):
        n, m = {"quick": (40, 1000), "thorough": (800, 20000)}[tier]
        return [(self.id, tier, seed, r) for r in [*range(n), *(f"screen{i}" for i in range(m))]]

    def run_unit(self, unit):
        _, tier, seed, r = unit
        rng = engine.rng_for(self.id, seed, r)
        res = Result()
        for i in range(40):
            cls = rng.choice(["never", "good", "good", "adverse", "adverse"])
            plan = {"check": self.id, "cls": cls, "fn": rng.randrange(1 << 30), "faults": []}
            v = self.attempt(plan)
            res.add(plan, v, sample=True)
            n = v.get("n", 0)
            if not v.get("viol") and n and cls == "good":
                for _ in range(3):
                    k = rng.choice([1, 2, n, rng.randint(1, n)])
                    f = [[k, rng.choice([1, 1, 2, 5, 100000]), rng.choice(["nan", "inf", "-inf", "zero", "flip", "const", "huge", "-nan"])]]
                    p = {**plan, "faults": f}
                    v = self.attempt(p)
                    res.add(p, v)
                    if v.get("viol"):
                        break
            if res.violations:
                break
        return res.dump()

    def run_plan(self, plan):
        return engine.in_child(_search, plan, timeout=60)


def function(cls, seed):
    r = random.Random(f"c12/{cls}/{seed}")
    c = r.uniform(-8, 8)
    w = 10**r.uniform(-2, 1)
    s = r.choice([1, -1])
    if cls == "never":
        a = 10**r.uniform(-12, 6)
        fns = [lambda m: s * a, lambda m: s * (a + abs(math.tanh(m))), lambda m: s * max(1e-30, 1 / (1 + m * m)),
               lambda m: s * math.inf, lambda m: 1e-30 + 1 / (1 + math.exp(-max(-300, min(300, (m - c) / w)))),
               lambda m: -1e-30 - 1 / (1 + math.exp(max(-300, min(300, (m - c) / w)))), lambda m: s, lambda m: s * np.float32(0.25),
               lambda m: np.float64(s * 5e-324), lambda m: s * 1e308, lambda m: s * (1.5 + math.sin(m) if math.isfinite(m) else 1.0)]
        return r, r.choice(fns)
    if cls == "good":
        def step(m):
            return np.float64(-0.5 if m < c else 0.5)
        q = r.choice([0.1, 0.5, 0.9, 0.99])
        eps = sorted(r.uniform(-3, 3) for _ in range(r.randint(1, 4)))
        beta = r.choice([1.0, 10.0, 50.0])

        def levels(m):
            x = sum(1 / (1 + math.exp(max(-500, min(500, beta * (e - m))))) for e in eps)
            return np.float64(x - q * len(eps))
        fns = [lambda m: np.tanh((m - c) / w), lambda m: np.tanh((m - c) / w) + 0.5, step, levels, lambda m: m - c,
               lambda m: 3 * (m - c), lambda m: np.cbrt(m - c), lambda m: float(np.clip(m - c, -0.01, 0.3)),
               lambda m: 2.0 * bool(m > c) - 1, lambda m: 0.0 if abs(m - c) < 0.5 else (m - c), lambda m: np.arctan((m - c) / w) - 0.2,
               lambda m: float(np.clip(m - c, -1e-19, 1e-18)), lambda m: 1e-20 * np.tanh(m - c), lambda m: 1e-9 * np.tanh((m - c) / w)]
        return r, r.choice(fns)
    # adverse
    h = {"n": 0}
    rr = random.Random(f"noise/{seed}")

    def alternating(m):
        h["n"] += 1
        return (-1.0)**h["n"]

    def fading(m):
        h["n"] += 1
        return s * 2.0**-h["n"] if h["n"] < 1060 else 0.0

    def noise(m):
        return rr.choice([-1, 1]) * 10**rr.uniform(-20, 20)

    def hidden(m):
        h["n"] += 1
        return s if h["n"] < 101 else -s

    def late(m):
        h["n"] += 1
        k = 95 + seed % 12
        return float(s if h["n"] <= k else -s * (1 if m * s < 0 else -1))

    def moving(m):
        h["n"] += 1
        return math.tanh(m - c - 0.5 * h["n"])

    def wild(m):
        return rr.choice([math.nan, math.inf, -math.inf, 0.0, -0.0, 1.0, -1.0, 1e-300, 1e300, 5e-324])

    def onesided(m):
        return math.nan if m * s > 1 else s * 1.0

    def decreasing(m):
        return -math.tanh(m - c)

    def spike(m):
        return -s * 1.0 if abs(m - c) < 1e-6 else s * 1.0

    def shaped(m):
        return np.array(np.tanh(np.asarray(m).reshape(()) - c))

    def drift(m):
        h["n"] += 1
        return s * (1 + h["n"])
    return r, r.choice([alternating, fading, noise, hidden, late, moving, wild, onesided, decreasing, spike, shaped, drift])


def options(r):
    kw = {}
    if r.random() < 0.5:
        kw["mu0"] = r.choice([0, 1, -2.5, 7.0, r.uniform(-9, 9), np.float64(0.3)])
    if r.random() < 0.4:
        kw["step0"] = r.choice([0.1, 1, 2.5, 1e-3, 30])
    if r.random() < 0.6:
        kw["method"] = r.choice(["brentq", "brenth", "ridder", "bisect", "toms748"])
    if r.random() < 0.3:
        kw["xtol"] = r.choice([1e-3, 1e-9, 1e-12])
    if r.random() < 0.15:
        kw["maxiter"] = r.choice([1, 3, 20, 400])
    return kw


def _search(plan):
    engine.quiet()
    gt = engine.gt
    r, fn = function(plan["cls"], plan["fn"])
    kw = options(r)
    faulty = bool(plan["faults"])
    pr = cases.Probe(fn, "occ_root")
    pr.max_count = HARD
    used = [0]
    for k, span, what in plan["faults"]:
        def post(res, what=what):
            used[0] += 1
            return {"nan": math.nan, "inf": math.inf, "-inf": -math.inf, "zero": 0.0, "flip": -res, "const": 0.7,
                    "huge": np.sign(res) * 1e308, "-nan": -math.nan}[what]
        if span > 1000:
            class From(dict):
                def get(self, key, default=None, k=k, post=post):
                    return post if isinstance(key, int) and key >= k else None
            pr.post = From()
        else:
            for j in range(k, k + span):
                pr.post[j] = post
    bound = 120 + 6 * kw.get("maxiter", 100) + 20
    got, exc = None, None
    try:
        with np.errstate(all="ignore"):
            got = gt.chemical_potential(pr, **kw)
    except cases.BudgetExceeded:
        pass
    except Exception as e:          # noqa: BLE001
        exc = e
    n = pr.count
    desc = f"{plan['cls']} function {plan['fn']}, {kw}" + (f", faults {plan['faults']}" if faulty else "")
    viol = None
    cls = plan["cls"]
    if n > bound:
        viol = ("effort", f"{desc}: {n} evaluations and no end" if got is None and exc is None else f"{desc}: {n} evaluations (bound {bound})")
    elif exc is not None and isinstance(exc, (NameError, AttributeError, RecursionError)):
        viol = ("broken", f"{desc}: {type(exc).__name__}: {exc}")
    elif cls == "never" and not (exc is not None and isinstance(exc, RuntimeError)):
        viol = ("no-bracket", f"{desc}: no bracket exists, but it {'returned ' + repr(got) if exc is None else 'raised ' + type(exc).__name__ + ': ' + str(exc)[:80]}")
    elif cls == "good" and not faulty:
        if exc is not None:
            if "maxiter" not in kw:
                viol = ("failed", f"{desc}: a well-behaved search raised {type(exc).__name__}: {str(exc)[:100]}")
            elif not isinstance(exc, RuntimeError):
                viol = ("budget", f"{desc}: exhausted budget raised {type(exc).__name__}")
        else:
            why = _verify("mu", {"f": fn, "kw": kw}, got)
            if why:
                viol = ("wrong", f"{desc}: {why}")
    elif got is not None and cls == "good" and faulty:
        # a fault changes what the function is; a value that is not a number is never an answer
        if not np.isfinite(float(np.asarray(got).reshape(()))):
            viol = ("wrong", f"{desc}: returned {got!r}")
    stats = {"class_" + cls: 1, "evaluations": n, "returned" if got is not None else "raised": 1, "evaluations_faulted": used[0],
             "max_100_evaluations": int(n > 100)}
    return {"viol": viol, "stats": stats, "sig": engine.stable_hash(plan) if n > 1 else None, "n": n}
