"""C16: damage to one item of a stack stays with that item."""
import functools

import numpy as np

from . import cases, catalog, engine
from .base import Check, line_starts, run_solo, spots

# Which argument carries stacked items, and where they are in the results: (argument, its core axes, core axes of the results).
# Stack axes are aligned from the right like in generalised ufuncs, "L": from the left.  Core axes of results: one number for all
# arrays in the result, or one per array (None: this array is made for the stack as a whole and not compared).
E1 = [(0, 0, 0)]
E2 = [(0, 0, 0), (1, 0, 0)]
IW = [(0, 1, 1), ("moments", 1, 1)]
TT = [(1, 1, 1), (2, 0, 0)]
OUT = [(1, 0, 0)]
LANES = {
    "bose_fct": E2, "fermi_fct": E2, "fermi_fct_d1": E1, "fermi_fct_inv": E1, "surface_gf_zeps": E2, "hubbard_dimer_gf_z": E2,
    "hubbard_I_self_z": E1, "lattice.square.stress_trafo": E1,
    "pole_gf_z": [(0, 0, 0), (1, 1, 0), (2, 1, 0)], "pole_gf_d1_z": E1, "pole_gf_tau": E1, "pole_gf_tau_b": E1, "pole_gf_ret_t": E1,
    "pole_gf_moments": [(0, 1, 1), (1, 1, 1)],
    "density_iw": [(1, 1, 0), ("moments", 1, 0)], "density": [(0, 1, 0), (1, 0, 0)], "density_error": [(0, 1, 0)], "density_error2": [(0, 1, 0)],
    "basis.RatPol.eval": OUT, "basis.ZeroPole.eval": OUT, "basis.ZeroPole.to_ratpol": OUT,
    "basis.PoleFct.from_moments": [(0, 1, 1)], "basis.PoleFct.from_z": [(1, 1, [None, 1]), ("moments", 1, [None, 1])],
    "basis.PoleGf.from_tau": [(0, 1, [None, 1]), ("moments", 1, [None, 1])],
    "linalg.orth_compl": [(0, 2, 2)],
    "matrix.decompose_mat": [(0, 2, [2, 1, 2])], "matrix.decompose_sym": [(0, 2, [2, 1, 2])], "matrix.decompose_her": [(0, 2, [2, 1, 2])],
    "matrix.gf_2x2_z": [(0, 0, 1), (1, 0, 1), (2, 0, 1), (3, 0, 1)],
    "matrix.Decomposition.reconstruct": [("eig", 1, "L")],
    "siam.gf0_loc_z": [(0, 0, 0), (1, 0, 0), (2, 1, 0), (3, 1, 0)], "siam.gf0_loc_ret_t": [(0, 0, 0), (1, 0, 0), (2, 1, 0), (3, 1, 0)],
    "siam.gf0_loc_gr_t": [(0, 0, 0), (1, 0, 0), (2, 1, 0), (3, 1, 0)], "siam.hybrid_z": [(0, 0, 0), (1, 1, 0), (2, 1, 0)],
    "siam.hamiltonian_matrix": [(0, 0, 2), (1, 1, 2), (2, 1, 2)],
    "fourier.iw2tau": IW, "fourier.tau2iw": IW, "fourier.iw2tau_dft": IW, "fourier.iw2tau_dft_soft": IW, "fourier.tau2iv": IW,
    "fourier.tau2iv_dft": IW, "fourier.tau2iv_ft_lin": IW, "fourier.tau2iw_dft": IW, "fourier.tau2iw_ft_lin": IW,
    "fourier.izp2tau": [(2, 0, 0)], "fourier.tau2izp": [(2, 0, 0)],
    "fourier.tt2z_trapz": TT, "fourier.tt2z_simps": TT, "fourier.tt2z_lin": TT, "fourier.tt2z_lpz": TT, "fourier.tt2z_pade": TT, "fourier.tt2z": TT,
    "fourier.tt2z_herm2": [(1, 1, 1)],
    "hermpade.pade": OUT, "hermpade.pader": OUT, "hermpade.Hermite2.methods": OUT,
    "linearprediction.pcoeff_covar": [(0, 1, [1, 0])], "linearprediction.pcoeff_burg": [(0, 1, [1, 0])],
    "linearprediction.predict": [(0, 1, 1), (1, 1, 1)], "linearprediction.companion": [(0, 1, 2)],
    "pade.coefficients": [(1, 1, 1)], "pade.masked_coefficients": [(1, 1, 1)],
    "pade.calc_iterator": [(0, 0, 0), (2, 1, "L")], "pade.calc_iterator.part": [(0, 0, 0), (2, 1, "L")],
    "pade.Averager": [(3, 0, 0), (1, 1, "L")], "pade.Mod_Averager": [(3, 0, 0)], "pade.Averager.call": E1, "pade.Mod_Averager.call": E1,
    "pade.averaged": [("fct_z", 1, "L"), ("coeff", 1, "L")], "pade.avg_no_neg_imag": [("fct_z", 1, "L")],
    "polepade.PadeApprox": OUT,
    "cpa.gf_cmpt_z": [(0, 0, 1), (1, 0, 1)], "cpa.self_root_eq": E2, "cpa.self_fxdpnt_eq": E2, "cpa.restrict_self_root_eq": E2,
    "beb.gf_loc_z": [(0, 0, 2), (1, 2, 2)], "beb.self_root_eq": [(0, 2, 2), (1, 0, 2)], "beb.restrict_self_root_eq": [(0, 2, 2), (1, 0, 2)],
}
# The same for what a user's callback returns: (callback, core axes of what it returns, core axes of the results)
CALLBACKS = {
    "cpa.gf_cmpt_z": [(0, 0, 1)], "cpa.self_root_eq": [(0, 0, 0)], "cpa.self_fxdpnt_eq": [(0, 0, 0)], "cpa.restrict_self_root_eq": [(0, 0, 0)],
    "beb.gf_loc_z": [(0, 1, 2)], "beb.self_root_eq": [(0, 1, 2)], "beb.restrict_self_root_eq": [(0, 1, 2)],
    "fourier.iw2tau": [(0, 1, 1)], "fourier.tau2iw": [(0, 1, 1)], "fourier.tau2iv": [(0, 1, 1)],
}
OUTER = ("fourier.tt2z", "pade.")       # not element by element: any item of the one with any item of the other
WRONG = ("nan", "nan", "inf", "-inf", "0", "-0", "1", "-1", "0.5", "1e300", "1e-300", "tiny", "negated", "conjugate", "twice", "copy", "noise", "one_nan")


def spec(name):
    if name in LANES:
        return LANES[name]
    if name.startswith("lattice.") and name.split(".")[2] in ("gf_z", "dos", "hilbert_transform", "gf_ret_t", "gf_d1_z", "gf_d2_z", "gf_z_inv"):
        return E2 if name.endswith("gf_z") else E1
    return []


class C16(Check):
    id = "C16"
    technique = ("deterministic simulation of data faults: seeded items of a stack are damaged before the call, at a seeded instruction of it, or in "
                 "what a user callback returns; all other items are compared with the undamaged run")
    k_struct = {"quick": 8, "thorough": 60}
    k_screen = {"quick": 24, "thorough": 120}
    spice = False
    tolerate = ("stall",)
    rule = ("A run damages one or several items of one stacked argument, or of the value a user callback returns, with one wrong value, before the call "
            "or at one instruction of it, and compares all other items of every result with those of the undamaged call. Non-trivial: the "
            "damaged call returned and there was another item to compare; distinct: (case, argument, items, value, point) differ.")
    stub = "the source of the data (faulty items), user callbacks"

    def wants(self, name, tags):
        return bool(spec(name)) and "plot" not in tags

    def plans(self, name, s, rng, tier):
        tags = catalog.OPS[name][2]
        a = [name, s, rng.randrange(2), 0]
        g = engine.GOLDEN(a)
        mk = lambda **k: {"check": self.id, "case": a, "draw": rng.randrange(1 << 20), "wrong": rng.choice(WRONG),    # noqa: E731
                          "many": rng.choice((1, 1, 1, 2, 0.5, -1)), **k}
        n = (4 if "slow" in tags else 8) if tier == "quick" else 30
        for i, _ in enumerate(spec(name)):
            for j in range(n):
                yield mk(lane=i, **({"every": True} if j % 3 == 2 and len(spec(name)) > 1 and not name.startswith(OUTER) else {}))
            for at in sorted(set(rng.sample(line_starts(g), min(2, len(line_starts(g)))) + spots(g, 2, rng))):
                yield mk(lane=i, at=at)
        for i, (c, _, _) in enumerate(CALLBACKS.get(name, ())):
            for _ in range(n if c < len(g["cb"]) and g["cb"][c] else 0):
                yield mk(callback=i, k=rng.randint(1, g["cb"][c]))

    def run_plan(self, plan):
        return engine.in_child(_contain, plan, timeout=60)


def arrays(r, out=None):
    """All numbers in a result, in a fixed order."""
    out = [] if out is None else out
    if isinstance(r, (np.ndarray, np.generic, float, complex, int)):
        out.append(np.asarray(r))
    elif isinstance(r, (list, tuple)):
        for x in r:
            arrays(x, out)
    elif isinstance(r, dict):
        for k in sorted(r):
            arrays(r[k], out)
    elif isinstance(r, np.polynomial.Polynomial):
        out.append(r.coef)
    elif hasattr(r, "__dict__"):
        for k in sorted(vars(r)):
            arrays(vars(r)[k], out)
    return out


def damage(x, axis, items, wrong, rng):
    """Spoil `items` along `axis`, in place."""
    y = np.moveaxis(x, axis, 0)
    old = np.array(y)
    others = [i for i in range(old.shape[0]) if i not in items]
    for i in items:
        if wrong == "one_nan":
            if y.ndim == 1:
                y[i] = np.nan
            else:
                y[i][tuple(rng.integers(n) for n in y.shape[1:])] = np.nan
        else:
            with np.errstate(all="ignore"):
                y[i] = {"tiny": lambda v: v * 1e-30, "negated": lambda v: -v, "conjugate": lambda v: v.conj(), "twice": lambda v: 2 * v,    # noqa: B023
                        "copy": lambda v: old[others[0]], "noise": lambda v: v + rng.normal(size=v.shape)}.get(    # noqa: B023
                            wrong, lambda v: float(wrong))(old[i])


def choose(n, many, rng):
    k = {0.5: n // 2, -1: n - 1}.get(many, many)
    return sorted(int(i) for i in rng.choice(n, size=max(1, min(n - 1, k)), replace=False))


def _contain(plan):
    engine.quiet()
    name = plan["case"][0]
    case = tuple(plan["case"])
    none = {"viol": None, "stats": {"nothing_stacked": 1}, "sig": None}
    rng = np.random.default_rng(plan["draw"])
    call = catalog.build(case)
    hit = {}
    if "callback" in plan:
        p, core, ocore = CALLBACKS[name][plan["callback"]]
        what = f"what {call.probes[p].__name__} returned at invocation {plan['k']}"

        def spoil(res):
            x = np.asarray(res)
            if x.dtype.kind not in "fc" or x.ndim <= core or not x.size:
                return res
            axis = int(rng.integers(x.ndim - core))
            if x.shape[axis] < 2:
                return res
            x = np.array(x)
            hit.update(axis=axis, ndim=x.ndim, n=x.shape[axis], items=choose(x.shape[axis], plan["many"], rng))
            damage(x, axis, hit["items"], plan["wrong"], rng)
            return x
        call.probes[p].post[plan["k"]] = spoil
        acts = []
    else:
        if call.kwargs.get("matrix") or call.kwargs.get("total"):
            return none         # one matrix, or a sum over the items
        key, core, ocore = spec(name)[plan["lane"]]
        x = call.args[key] if isinstance(key, int) and key < len(call.args) else call.kwargs.get(key)
        if not isinstance(x, np.ndarray) or x.dtype.kind not in "fc" or x.ndim <= core or not x.size:
            return none
        axes = [i for i in range(x.ndim - core) if x.shape[i] > 1]
        if not axes:
            return none
        x = np.array(x)
        if isinstance(key, int):
            call.args[key] = x
        else:
            call.kwargs[key] = x
        axis = axes[int(rng.integers(len(axes)))]
        hit.update(axis=axis, ndim=x.ndim, n=x.shape[axis], items=choose(x.shape[axis], plan["many"], rng))
        what = f"argument {key!r}"
        spoil = functools.partial(damage, x, axis, hit["items"], plan["wrong"], rng)
        if plan.get("every"):       # the same items in all arguments
            for key2, core2, _ in spec(name):
                y = call.args[key2] if isinstance(key2, int) and key2 < len(call.args) else call.kwargs.get(key2)
                axis2 = np.ndim(y) - core2 - (x.ndim - core - axis)
                if key2 == key or not isinstance(y, np.ndarray) or y.dtype.kind not in "fc" or axis2 < 0 or y.shape[axis2] != hit["n"] or not y.size:
                    continue
                y = np.array(y)
                if isinstance(key2, int):
                    call.args[key2] = y
                else:
                    call.kwargs[key2] = y
                damage(y, axis2, hit["items"], plan["wrong"], rng)
                what = "all arguments"
        acts = []
        if "at" in plan:
            acts = [(plan["at"], lambda task, code, offset: spoil())]
            what += " while the call ran"
        else:
            spoil()
    try:
        ref = arrays(catalog.build(case)())
    except Exception:       # noqa: BLE001
        return {"viol": None, "stats": {"raised_without_damage": 1}, "sig": None}
    res = []
    if acts:
        run_solo(lambda: res.append(call()), acts)
    else:
        cases.outcome(lambda: res.append(call()))
    if not hit:
        return none
    stats = {"items_damaged": len(hit["items"]), "damage_" + plan["wrong"]: 1, "damaged_in_flight": int(bool(acts)), "damaged_callback_values": int("callback" in plan)}
    if not res:
        stats["raised"] = 1
        return {"viol": None, "stats": stats, "sig": None}
    got = arrays(res[0])
    bad, compared = compare(ref, got, hit, core, ocore)
    viol = None
    if bad:
        bad = well_posed(case, bad, ref, hit, core, ocore)
        stats["ill_posed"] = int(not bad)
    if bad:
        viol = ("spread", f"{name}: item {hit['items']} of {hit['n']} of {what} was damaged ({plan['wrong']}), and {next(iter(bad.values()))[1]}")
    stats["arrays_compared"] = compared
    return {"viol": viol, "stats": stats, "sig": engine.stable_hash(plan) if compared else None}


def compare(ref, got, hit, core, ocore):
    """What differs beyond rounding in undamaged items {array: (elements, text)}, and how many arrays were compared."""
    compared, out = 0, {}
    if len(ref) != len(got):
        return out, 0
    single = any(x.dtype in (np.float32, np.complex64) for x in ref)
    for i, (r, g) in enumerate(zip(ref, got)):
        oc = ocore[i] if isinstance(ocore, list) and i < len(ocore) else None if isinstance(ocore, list) else ocore
        if oc is None or r.dtype.kind not in "biufc" or g.dtype.kind not in "biufc":
            continue
        axis = hit["axis"] if oc == "L" else r.ndim - oc - (hit["ndim"] - core - hit["axis"])
        if not 0 <= axis < r.ndim or r.shape[axis] != hit["n"]:
            continue
        compared += 1
        if r.shape != g.shape:
            out[i] = (True, f"the shape of result array {i} became {g.shape} from {r.shape}")
            continue
        keep = np.setdiff1d(np.arange(hit["n"]), hit["items"])
        a, b = np.take(r, keep, axis=axis), np.take(g, keep, axis=axis)
        fin = np.abs(a[np.isfinite(a)])
        tol = 2e-4 if single else 1e-9
        with np.errstate(all="ignore"):
            bad = ~np.isclose(b, a, rtol=tol, atol=1e-3 * tol * (fin.max() if fin.size else 1), equal_nan=True)
        if bad.any():
            w = tuple(int(v) for v in np.argwhere(bad)[0])
            out[i] = (bad, f"undamaged item {int(keep[w[axis]])} of result array {i} changed to {b[w]!r} from {a[w]!r}")
    return out, compared


def well_posed(case, bad, ref, hit, core, ocore):
    """Without the elements which already react that much to changes of the input at rounding level."""
    for trial in range(4):
        call = catalog.build(case)
        rng = np.random.default_rng(trial)

        def shake(x):
            if isinstance(x, np.ndarray) and x.dtype.kind in "fc" and x.size:
                return np.array(x * (1 + max(1e-13, 10 * np.finfo(x.dtype).eps) * rng.uniform(-1, 1, x.shape))).astype(x.dtype)     # noqa: B023
            return x * (1 + 1e-13 * rng.uniform(-1, 1)) if isinstance(x, float) else x      # noqa: B023
        call.args = [shake(x) for x in call.args]
        call.kwargs = {k: shake(x) for k, x in call.kwargs.items()}
        try:
            res = arrays(call())
        except Exception:       # noqa: BLE001
            return {}
        shaken, _ = compare(ref, res, hit, core, ocore)
        bad = {i: (m & ~shaken[i][0] if i in shaken else m, t) for i, (m, t) in bad.items()}
        bad = {i: (m, t) for i, (m, t) in bad.items() if np.any(m)}
    return bad
