"""C13: every call ends after a bounded number of steps."""
import numpy as np
import scipy.linalg

from . import boot, cases, catalog, engine, kernel
from .base import EXC, Check, describe, run_solo

LIMIT = 3_000_000     # instructions of the package; clean runs need less than a tenth
CALLS = 20000         # invocations of one user callback within one call
KERNELS = ("svd", "qr", "eig", "eigh", "eigvals", "eigvalsh", "inv", "solve", "lstsq", "pinv", "norm", "det", "cond", "matrix_rank")


class C13(Check):
    id = "C13"
    technique = ("deterministic simulation with a step clock: hostile data, erratic callbacks and linear-algebra kernels that fail or "
                 "answer wrongly at seeded invocations; the call must end within a step budget")
    k_struct = {"quick": 5, "thorough": 40}
    k_screen = {"quick": 24, "thorough": 100}
    tolerate = ("stall", "crash", "error")      # LAPACK and mpmath themselves may not return from non-finite input: not judged
    rule = ("A run executes one call on data of which up to two arguments were replaced by hostile values, or whose callback turns erratic at a "
            "seeded invocation, or during which a linear-algebra kernel fails or answers wrongly at a seeded invocation (once or from then on), or "
            "whose solver was given a small iteration budget; it must end within the step budget. Non-trivial: the call executed more than 20 "
            "instructions of the package; distinct: (case, disturbance) differ.")
    stub = "user callbacks, answers of linear-algebra kernels"
    shrink = ("twists",)

    def wants(self, name, tags):
        return "plot" not in tags

    def plans(self, name, s, rng, tier):
        tags = catalog.OPS[name][2]
        a = [name, s, 0, rng.randrange(3)]
        mk = lambda **k: {"check": self.id, "case": a, **k}     # noqa: E731
        if name.startswith(("cpa.solve", "beb.solve", "refused.solvers")):
            for _ in range(3):
                yield mk(budget=rng.randint(1, 5))
                yield mk(budget=rng.randint(1, 5), cb=[0, rng.choice([1, 3, rng.randint(1, 40)]), rng.choice(ERRATIC)])
            return
        n = 12 if tier == "quick" else 40
        seen = set()
        for _ in range(n):
            tw = [[rng.randrange(8), rng.choice(catalog.HOSTILE + catalog.POKES)] for _ in range(rng.choice([1, 1, 2, 3]))]
            if repr(tw) not in seen:
                seen.add(repr(tw))
                yield mk(twists=tw)
        g = engine.GOLDEN(a, True)
        for i, c in enumerate(g["cb"]):
            for _ in range(4 if c else 0):
                yield mk(cb=[i, rng.randint(1, c), rng.choice(ERRATIC)], twists=[[rng.randrange(8), rng.choice(catalog.HOSTILE)]] if rng.random() < 0.3 else [])
        lin = [x for x in g["calls"] if x[4] and x[5] in KERNELS]
        if lin:
            for _ in range(6 if tier == "quick" else 20):
                yield mk(kernel=[rng.randint(1, len(lin)), rng.choice([1, 1, 10**9]), rng.choice(["zero", "ones", "noise", "reverse", "raise"])],
                         twists=[[rng.randrange(8), rng.choice(("zero", "plus", "const", "one"))]] if rng.random() < 0.4 else [])

    def run_plan(self, plan):
        return engine.in_child(_bounded, plan, timeout=40)


ERRATIC = ("nan", "inf", "zero", "const", "noise", "flip", "huge", "shrink")


def erratic(kind, seed):
    rng = np.random.default_rng(seed)

    def post(res):
        if not isinstance(res, (float, complex, np.number)) and not (isinstance(res, np.ndarray) and res.dtype.kind in "fc"):
            return res
        r = np.asarray(res)
        with np.errstate(all="ignore"):
            return {"nan": lambda: r * np.nan, "inf": lambda: r * np.inf, "zero": lambda: r * 0, "const": lambda: r * 0 + 0.7,
                    "noise": lambda: r * (10 ** rng.uniform(-3, 3, r.shape)) * rng.choice([-1, 1], r.shape), "flip": lambda: -r,
                    "huge": lambda: r * 1e200, "shrink": lambda: r * 1e-200}[kind]().astype(r.dtype)[()]
    return post


class Tampered:
    """np.linalg and scipy.linalg with kernels that misbehave from the k-th invocation on."""

    def __init__(self, k, times, how):
        self.k, self.times, self.how, self.n, self.used, self.saved = k, times, how, 0, 0, []
        self.rng = np.random.default_rng(k)

    def __enter__(self):
        for mod in (np.linalg, scipy.linalg):
            for name in KERNELS:
                fn = getattr(mod, name, None)
                if fn is not None:
                    self.saved.append((mod, name, fn))
                    setattr(mod, name, self.wrap(fn))
        return self

    def wrap(self, fn):
        lstsq = fn.__name__ == "lstsq"

        def kernel_(*a, **k):
            if lstsq and not all(np.isfinite(x).all() for x in a[:2]):     # LAPACK would not return
                raise EXC["LinAlgError"]()
            self.n += 1
            if not self.k <= self.n < self.k + self.times:
                return fn(*a, **k)
            self.used += 1
            if self.how == "raise":
                raise EXC["LinAlgError"]()
            return self.spoil(fn(*a, **k))
        return kernel_

    def spoil(self, r):
        if isinstance(r, tuple):
            new = [self.spoil(x) for x in r]
            return type(r)(*new) if hasattr(r, "_fields") else tuple(new)
        x = np.asarray(r)
        if x.dtype.kind not in "fc":
            return r
        y = {"zero": lambda: x * 0, "ones": lambda: x * 0 + 1, "noise": lambda: x * (1 + 1e-2 * self.rng.normal(size=x.shape)),
             "reverse": lambda: x[..., ::-1].copy() if x.ndim else -x}[self.how]()
        return y.astype(x.dtype)[()]

    def __exit__(self, *exc):
        for mod, name, fn in self.saved:
            setattr(mod, name, fn)


def _bounded(plan):
    engine.quiet()
    name = plan["case"][0]
    call = catalog.build(tuple(plan["case"]))
    tags = catalog.OPS[name][2]
    finite = name.split(".")[0] in cases._LAPACK or "mp" in tags or "cb" in tags
    what = []
    for i, how in plan.get("twists", ()):
        catalog.twist(call, i, how, finite)
        what.append(f"argument {i} {how}")
    if "budget" in plan:
        call.kwargs["options"] = {**call.kwargs.get("options", {}), ("maxfev" if call.kwargs.get("method") in ("df-sane", "hybr") else "maxiter"): plan["budget"]}
        what.append(f"iteration budget {plan['budget']}")
    used = [0]
    if "cb" in plan:
        i, k, kind = plan["cb"]
        post = erratic(kind, k)
        pr = call.probes[i]
        old = pr.fn

        def fn(*a, **kw):
            r = old(*a, **kw)
            if pr.count >= k:
                used[0] += 1
                return post(r)
            return r
        pr.fn = fn
        what.append(f"callback {pr.__name__} {kind} from invocation {k} on")
    for pr in call.probes:
        pr.max_count = CALLS if "budget" not in plan else 8000
    tam = Tampered(*plan.get("kernel", (0, 0, "")))
    if "kernel" in plan:
        what.append(f"linear algebra answers {plan['kernel'][2]} at invocation {plan['kernel'][0]}" + (" and later" if tam.times > 1 else ""))
    viol, n, out = None, 0, None
    t = kernel.Task(0, None)
    t.plan([(LIMIT, engine.no_end)])
    kernel.monitor(boot.CODES)
    try:
        with kernel.Solo(t), np.errstate(all="ignore"):
            with tam:
                out = cases.outcome(call)
    except cases.BudgetExceeded as e:
        viol = ("no-end", f"{name} with {', '.join(what) or 'ordinary data'}: no end ({e})")
    finally:
        kernel.unmonitor(boot.CODES)
    if viol is None and out[0] == "exc" and out[1] == "builtins.RecursionError":
        viol = ("no-end", f"{name} with {', '.join(what) or 'ordinary data'}: unbounded recursion")
    stats = {"events": t.n, "hostile_arguments": len(plan.get("twists", ())), "callback_answers_spoiled": used[0], "kernel_answers_spoiled": tam.used,
             "budget_runs": int("budget" in plan), "over_100k_steps": int(t.n > 100_000)}
    if out:
        stats["raised" if out[0] == "exc" else "returned"] = 1
    return {"viol": viol, "stats": stats, "sig": engine.stable_hash(plan) if t.n > 20 else None}
