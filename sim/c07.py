"""C07: solvers return a converged solution or raise."""
import random

import numpy as np

from . import boot, cases, catalog, engine, kernel
from .base import EXC, Check, Result, describe, fail_call

HARD = 200000          # evaluations after which a search counts as endless


class C07(Check):
    id = "C07"
    spice = False
    technique = ("deterministic simulation of the solvers under exhausted budgets and transient or lasting NaN from the user's "
                 "callbacks, with an independent residual oracle on every returned value")
    rule = ("A run solves one seeded CPA / BEB / fixed-occupation CPA / chemical-potential problem with a seeded budget, tolerance, "
            "method and callback fault; a returned value must satisfy the independently written self-consistency equation to the "
            "tolerance asked for, an exhausted budget must raise RuntimeError. Non-trivial: the user function was evaluated; "
            "distinct: (problem, fault) differ.")
    stub = "user callbacks (lattice Hilbert transform, occupation function)"
    shrink = ("faults",)

    KINDS = {"cpa": 10, "beb": 8, "fxdocc": 5, "mu": 6}

    def units(self, tier, seed):
        rep = {"quick": 8, "thorough": 120}[tier]
        return [(self.id, tier, seed, k, f"screen{i}" if i % 8 else i) for r in range(rep) for k, n in sorted(self.KINDS.items())
                for i in range(r * n, (r + 1) * n)]

    def run_unit(self, unit):
        _, tier, seed, kind, r = unit
        rng = engine.rng_for(self.id, seed, kind, r)
        res = Result()
        for _ in range({"cpa": 8, "beb": 6, "fxdocc": 3, "mu": 14}[kind]):
            prob = {"kind": kind, "seed": rng.randrange(1 << 30)}
            base = {"check": self.id, "prob": prob, "faults": []}
            v = self.attempt(base)
            res.add(base, v, True)
            n, ok = v.get("n", 0), v.get("ok")
            faults = []
            for m in {1, 2, rng.choice([3, 4, 5]), rng.choice([6, 8, 12])}:
                faults.append([["maxiter", m]])
            for _ in range(3):
                if n:
                    k = rng.randint(1, n)
                    faults.append([["value", k, rng.choice([1, 1, 2, 3, 99999]), rng.choice(["nan", "nan", "nan0"])]])
            if n:
                faults.append([["maxiter", rng.choice([2, 4, 8])], ["value", rng.randint(1, n), 1, "nan"]])
            for f in faults:
                plan = {"check": self.id, "prob": prob, "faults": f, "converges": bool(ok)}
                v = self.attempt(plan)
                res.add(plan, v)
                if v.get("viol"):
                    break
            if res.violations:
                break
        return res.dump()

    def run_plan(self, plan):
        return engine.in_child(_solve, plan)


# ------------------------------------------------------------------ problems
def hilb(D, kind):
    def bethe(xi):
        x = np.asarray(xi) / D
        with np.errstate(all="ignore"):
            return 2 / D * x * (1 - np.sqrt(1 - x**-2.0 + 0j))

    def box(xi):
        xi = np.asarray(xi)
        with np.errstate(all="ignore"):
            return 0.5 / D * (np.log((xi + D + 0j)) - np.log(xi - D + 0j))
    return {"bethe": bethe, "box": box}[kind]


def problem(prob):
    r = random.Random(f"c07/{prob['kind']}/{prob['seed']}")
    g = np.random.default_rng(prob["seed"])
    kind = prob["kind"]
    if kind == "mu":
        return mu_problem(r, g)
    D = r.choice([1.0, 1.0, 0.7, 1.5])
    h = hilb(D, r.choice(["bethe", "bethe", "box"]))
    nc = r.choice([1, 2, 2, 3])
    e = g.uniform(-1, 1, nc) * r.choice([0.2, 0.5, 1.0])
    c = g.uniform(0.1, 1, nc)
    c = c / c.sum()
    kw = {}
    if kind == "cpa":
        n = r.choice([1, 2, 4, 7])
        z = g.uniform(-1.2, 1.2, n) + 1j * 10**g.uniform(-3, -0.3, n)
        if r.random() < 0.15:
            z = z.conj()
        if r.random() < 0.3:
            kw["restricted"] = r.choice([True, False])
        if r.random() < 0.5:
            kw["method"] = r.choice(["anderson", "krylov", "broyden1", "broyden2", "df-sane", "linearmixing", "excitingmixing", "diagbroyden"])
        _tols(r, kw)
        if r.random() < 0.3:
            kw["self_cpa_z0"] = g.uniform(-0.3, 0.3, n) - 1j * g.uniform(-0.1, 0.3, n)
        return dict(D=D, h=h, z=z, e=e, c=c, kw=kw, default="anderson" if kw.get("restricted", True) else "broyden2")
    if kind == "beb":
        n = r.choice([1, 2, 3])
        z = g.uniform(-1.2, 1.2, n) + 1j * 10**g.uniform(-1.5, -0.1, n)
        if r.random() < 0.3:
            t = np.ones((nc, nc))
        else:
            t = np.eye(nc) + 0.3 * g.uniform(-1, 1, (nc, nc))
            t = 0.5 * (t + t.T)
        if r.random() < 0.3:
            kw["restricted"] = r.choice([True, False])
        if r.random() < 0.4:
            kw["method"] = r.choice(["anderson", "krylov", "broyden1", "broyden2", "df-sane", "excitingmixing"])
        _tols(r, kw)
        if r.random() < 0.3:
            kw["self_beb_z0"] = np.broadcast_to(-0.1j * np.eye(nc), (n, nc, nc)) + 0.05 * g.uniform(-1, 1, (nc, nc))
        return dict(D=D, h=h, z=z, e=e, c=c, t=t, kw=kw, default="krylov")
    n = r.choice([8, 16])
    beta = r.choice([2.0, 4.0])
    iws = 1j * np.pi / beta * (2 * np.arange(n) + 1)
    if r.random() < 0.3:
        kw["n_fit"] = 1
    if r.random() < 0.3:
        kw["restricted"] = False
    if r.random() < 0.3:
        kw["method"] = r.choice(["krylov", "anderson", "broyden1", "hybr"])
    if r.random() < 0.4:
        kw["mu0"] = r.choice([0.1, -0.3])
    if r.random() < 0.25:
        kw["weights"] = 2
    _tols(r, kw)
    occ = r.choice([0.2, 0.35, 0.5, 0.8]) * (kw.get("weights", 1))
    return dict(D=D, h=h, z=iws, e=e, c=c, kw=kw, beta=beta, occ=occ, default="krylov")


def _tols(r, kw):
    # `tol` is left out for scipy's nonlin methods: there it bounds the last step only, not the residual
    x = r.random()
    if x < 0.25 and kw.get("method") == "df-sane":
        kw["tol"] = r.choice([1e-7, 1e-10])
    elif x < 0.6 and kw.get("method") not in ("hybr", "df-sane"):
        kw["options"] = {"fatol": r.choice([1e-3, 1e-8, 1e-11])}


def mu_problem(r, g):
    c, w = float(g.uniform(-6, 6)), float(10**g.uniform(-1.5, 1))
    kind = r.choice(["tanh", "cubic", "steps", "exp", "root", "offset"])
    f = {"tanh": lambda m: np.tanh((m - c) / w), "cubic": lambda m: (m - c)**3 / w + 1e-3 * (m - c),
         "steps": lambda m: 0.5 * np.tanh(20 * (m - c)) + 0.4 * np.tanh((m - c + 2) / w) - 0.35,
         "exp": lambda m: 1 / (1 + np.exp(-np.clip((m - c) / w, -500, 500))) - 0.7,
         "root": lambda m: np.sign(m - c) * np.sqrt(abs(m - c) / w), "offset": lambda m: np.tanh((m - c) / w) + 0.5}[kind]
    kw = {}
    if r.random() < 0.5:
        kw["mu0"] = float(g.uniform(-3, 3))
    if r.random() < 0.4:
        kw["step0"] = r.choice([0.1, 1.0, 3.0])
    if r.random() < 0.5:
        kw["method"] = r.choice(["brentq", "brenth", "ridder", "bisect", "toms748"])
    if r.random() < 0.4:
        kw["xtol"] = r.choice([1e-4, 1e-8, 1e-12])
    return dict(f=f, kw=kw)


# ------------------------------------------------------------------ independent oracle
def _cpa_res(p, S, e):
    """T-matrix of the CPA medium: must vanish."""
    G = p["h"](p["z"] - S)
    tot = np.zeros(np.shape(S), dtype=complex)
    for ci, ei in zip(p["c"], np.moveaxis(np.asarray(e) + np.zeros((1, p["c"].size)), -1, 0)):
        v = ei - S
        tot = tot + ci * v / (1 - v * G)
    return tot / (1 + tot * G)


def _restricted(res, S):
    """Independent form of the restricted equation, for the scale of the starting residual."""
    d = np.where(S.imag > 0, S.imag, 0)
    x = res * (1 + d)
    return x + 1e-3 * d * (np.where(x.real >= 0, 1, -1) + 1j * np.where(x.imag >= 0, 1, -1))


def _proj(S):
    return np.where(S.imag > 0, S.real + 0j, S)


def _beb_gloc(p, S):
    """Local Green's function A f(T A), A = (z-S)^-1, f(x) = h(1/x)/x, f(0) = 1, on the range of T only."""
    n = p["e"].size
    w, U = np.linalg.eigh(p["t"])
    keep = abs(w) > 1e-9 * abs(w).max()
    w, U = w[keep], U[:, keep]
    out = []
    for zi, Si in zip(p["z"], S):
        Ai = np.linalg.inv(zi * np.eye(n) - Si)
        W = (w[:, None] * U.T) @ Ai
        lam, R = np.linalg.eig(W @ U)
        k = (p["h"](1 / lam) / lam - 1) / lam
        out.append(Ai + Ai @ U @ ((R * k) @ np.linalg.inv(R)) @ W)
    return np.array(out)


def _beb_res(p, S):
    inv = np.linalg.inv(_beb_gloc(p, S))
    d = np.diagonal(inv, axis1=-2, axis2=-1)
    sd = np.diagonal(S, axis1=-2, axis2=-1)
    avg = (d + sd - p["e"]) / p["c"]
    return inv - avg[..., None] * np.eye(p["e"].size)


EPS3 = float(np.finfo(float).eps ** (1 / 3))


def _limit(method, kw, f0):
    """Tolerance on the residual that was asked for, from scipy's documented meaning of the options."""
    opt = dict(kw.get("options") or {})
    tol = kw.get("tol")
    if method == "df-sane":
        return (tol if tol is not None else 1e-8) * float(np.linalg.norm(f0)) * 1.01
    if method == "hybr":
        return 1e-3
    return opt.get("fatol", EPS3)


def _verify(kind, p, val):
    """None or a description of why the value is no solution."""
    kw = p["kw"]
    method = kw.get("method", p.get("default"))
    restricted = kw.get("restricted", True)
    if kind == "mu":
        mu = float(val)
        if not np.isfinite(mu):
            return f"mu = {mu}"
        f = p["f"]
        x = kw.get("xtol", 2e-12)
        d = 4 * (x + 1e-14 * abs(mu)) + 1e-14
        if f(mu) == 0 or f(mu - d) * f(mu + d) <= 0:
            return None
        return f"occupation misses the target by {f(mu):.3g} at mu = {mu!r}"
    if kind == "fxdocc":
        S, mu = np.asarray(val.self_cpa), float(val.mu)
        if not (np.isfinite(S).all() and np.isfinite(mu)):
            return "not finite"
        Sp = _proj(S) if restricted else S
        r = _cpa_res(p, Sp, p["e"] - mu)
        lim = _limit(method, kw, [10.0]) * 2 + 1e-10
        if abs(r).max() > lim:
            return f"self-consistency violated by {abs(r).max():.3g} (tolerance {lim / 2:.3g})"
        gf = p["h"](p["z"] - Sp)
        dens = engine.gt.density_iw(p["z"], gf, beta=p["beta"], weights=kw.get("weights", 1),
                                    moments=np.array([1.0, Sp[-1].real]), n_fit=kw.get("n_fit", 0)).sum()
        if abs(dens - p["occ"]) * S.size > lim:
            return f"occupation {dens:.8g} instead of {p['occ']}"
        return None
    S = np.asarray(val)
    if not np.isfinite(S).all():
        return "not finite"
    if kind == "cpa":
        S0 = kw.get("self_cpa_z0")
        S0 = np.broadcast_to((p["e"] * p["c"]).sum() + 0j, p["z"].shape) if S0 is None else S0
        f0 = _cpa_res(p, _proj(S0) if restricted else S0, p["e"])
        if restricted:
            f0 = _restricted(f0, S0)
        lim = _limit(method, kw, f0)
        r = abs(_cpa_res(p, _proj(S) if restricted else S, p["e"])).max()
        if r > 2 * lim + 1e-11:
            return f"self-consistency violated by {r:.3g} (tolerance {lim:.3g})"
        if restricted and S.imag.max() > 2e3 * lim + 1e-9:
            return f"unphysical self-energy (imaginary part {S.imag.max():.3g}, tolerance {lim:.3g})"
        return None
    dg = np.eye(p["e"].size, dtype=bool)
    Sp = S.copy()
    if restricted:
        Sp[..., dg] = _proj(S[..., dg])
    r = abs(_beb_res(p, Sp)).max()
    S0 = kw.get("self_beb_z0")
    if S0 is None or kw.get("tol") is None and method != "df-sane":
        f0 = np.array([20.0])      # scale of the equation at the library's own starting guess
    else:
        f0 = _beb_res(p, S0) * (1 + abs(S0).max())
        f0 = np.abs(f0) + 0.1
    lim = _limit(method, kw, f0)
    if r > 3 * lim + 1e-8 * (1 + abs(Sp).max()):
        return f"self-consistency violated by {r:.3g} (tolerance {lim:.3g})"
    return None


def _solve(plan):
    engine.quiet()
    gt = engine.gt
    p = problem(plan["prob"])
    kind = plan["prob"]["kind"]
    kw = dict(p["kw"])
    fn = p["f"] if kind == "mu" else p["h"]
    stats = {"runs_" + kind: 1}
    pr = cases.Probe(fn, "occ_root" if kind == "mu" else "hilbert_trafo")
    pr.max_count = HARD
    budget = None
    for f in plan["faults"]:
        if f[0] == "maxiter":
            budget = f[1]
            stats["budgets_limited"] = 1
            if kind == "mu":
                kw["maxiter"] = budget
            elif kw.get("method") in ("df-sane", "hybr"):
                kw["options"] = {**(kw.get("options") or {}), "maxfev": budget + 1}
            else:
                kw["options"] = {**(kw.get("options") or {}), "maxiter": budget}
        else:
            _, k, span, what = f

            def post(res, what=what):
                stats["callback_values_corrupted"] = stats.get("callback_values_corrupted", 0) + 1
                a = np.array(res, dtype=complex if np.iscomplexobj(res) else float)
                if what == "nan0" and a.ndim:
                    a.reshape(-1)[0] = np.nan
                else:
                    a[...] = np.nan if what.startswith("nan") else np.inf
                return a if a.ndim else a[()]
            if span > 1000:
                class From(dict):
                    def get(self, key, default=None, k=k):
                        return post if isinstance(key, int) and key >= k else None
                pr.post = From()
            else:
                for j in range(k, k + span):
                    pr.post[j] = post
    if budget is None and kind not in ("mu",) and kw.get("method") not in ("df-sane", "hybr"):
        kw["options"] = {**(kw.get("options") or {}), "maxiter": 80}
    if budget is None and kw.get("method") == "df-sane":
        kw["options"] = {**(kw.get("options") or {}), "maxfev": 1000}
    viol, val, ok = None, None, False
    try:
        if kind == "mu":
            val = gt.chemical_potential(pr, **kw)
        elif kind == "cpa":
            val = gt.cpa.solve_root(p["z"], p["e"], p["c"], pr, **kw)
        elif kind == "beb":
            val = gt.beb.solve_root(p["z"], p["e"], p["c"], p["t"], pr, **kw)
        else:
            val = gt.cpa.solve_fxdocc_root(p["z"], p["e"], p["c"], pr, beta=p["beta"], occ=p["occ"], **kw)
        ok = True
        stats["returned"] = 1
    except cases.BudgetExceeded:
        viol = ("hang", f"{kind}: more than {HARD} evaluations")
    except Exception as e:         # noqa: BLE001
        stats["raised"] = 1
        faults = [f[0] for f in plan["faults"]]
        if faults == ["maxiter"] and plan.get("converges") and not isinstance(e, RuntimeError):
            viol = ("budget", f"{kind}: running out of iterations raised {type(e).__name__}({str(e)[:80]!r}) instead of RuntimeError")
        if isinstance(e, (NameError, AttributeError)):
            viol = ("broken", f"{kind}: {type(e).__name__}: {e}")
    if ok:
        with np.errstate(all="ignore"):
            why = _verify(kind, p, val)
        if why:
            viol = ("unconverged", f"{kind} solver returned a value that is no solution: {why}")
    stats["evaluations"] = pr.count
    return {"viol": viol, "stats": stats, "sig": engine.stable_hash(plan) if pr.count else None, "n": pr.count, "ok": ok}
