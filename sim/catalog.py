"""The workload: every public function of the package, as seeded cases.

OPS maps an op name to (builder, weight, tags).  A builder gets a `Gen` and
returns a `Call`.  Tags: 'cb' has user callbacks, 'mp' multi precision,
'solver' iterative solver, 'slow' expensive, 'pade' Pade iterator family.
"""
from functools import partial
from types import FunctionType

import numpy as np
from mpmath import mp

from .cases import _LAPACK as LAPACK
from .cases import Call, Gen, Probe

OPS = {}
gt = None


def bind(module):
    global gt
    gt = module


def op(name, *tags, weight=1.0):
    def deco(f):
        OPS[name] = (f, weight, frozenset(tags))
        return f
    return deco


def build(case):
    """case = (op, sseed, vseed, pseed[, vseed of the library objects among the arguments])"""
    if len(case) == 5 and isinstance(case[4], (list, tuple)) and case[4][0] == "twist":
        return twist(build(case[:4]), case[4][1], case[4][2], case[0].split(".")[0] in LAPACK or bool(OPS[case[0]][2] & {"mp", "cb"}))
    if len(case) == 5 and isinstance(case[4], (list, tuple)):
        return tweak(build(case[:4]), *case[4])
    if len(case) == 5:
        return share(build(case[:4]), build((*case[:2], case[4], case[3])))
    name, s, v, p = case
    try:
        call = OPS[name][0](Gen(name, s, v, p))
    except Exception as e:          # noqa: BLE001  preparing the arguments uses the library, too: its failure is the outcome
        call = Call(_refuse, type(e), str(e))
    call.name = name
    return call


def is_object(x):
    """An object of the library itself (decomposition, pole function, averager, ...)."""
    t = type(x)
    return t.__module__.split(".")[0] == "gftool" and not isinstance(x, type)


def sharable(x):
    """A library object, or a function the library made (averager, filter)."""
    return is_object(x) or (isinstance(x, FunctionType) and x.__closure__ is not None and (x.__module__ or "").split(".")[0] == "gftool")


def _alike(x, y):
    return sharable(x) and type(x) is type(y) and getattr(x, "__code__", None) is getattr(y, "__code__", None)


def share(call, owner):
    """`call` on the library objects of `owner`, with its own plain data.  call.shared tells whether there are any."""
    n = 0
    if _alike(owner.fn, call.fn):
        call.fn, call.extra, call.probes, n = owner.fn, owner.extra, owner.probes, 1
    if len(owner.args) == len(call.args):
        for i, (x, y) in enumerate(zip(owner.args, call.args)):
            if _alike(x, y):
                call.args[i] = x
                n += 1
    for k, x in owner.kwargs.items():
        if _alike(x, call.kwargs.get(k)):
            call.kwargs[k] = x
            n += 1
    call.shared = n
    return call


HOW = ("far", "near", "mid", "last", "type")
TWINS = ("kind", "axis", "flat", "zero+", "zero-")      # equal numbers, yet another argument


def leaves(call):
    """Argument positions that can be tweaked."""
    slots = [("a", i) for i in range(len(call.args))] + [("k", k) for k in sorted(call.kwargs)]
    return [(w, k) for w, k in slots if _tweaked((call.args if w == "a" else call.kwargs)[k], "far") is not None]


def tweak(call, i, how):
    """The same call with only its i-th argument (of those that can) changed."""
    ls = leaves(call)
    if ls:
        w, k = ls[i % len(ls)]
        box = call.args if w == "a" else call.kwargs
        new = _tweaked(box[k], how)
        box[k] = new if new is not None else _tweaked(box[k], "far")
        if isinstance(new, Probe):
            call.probes = [new if p.__name__ == new.__name__ else p for p in call.probes]
    return call


HOSTILE = ("zero", "one", "neg", "plus", "huge", "tiny", "nan", "inf", "const", "rep")
POKES = ("pnan", "pinf", "pzero", "pneg", "row", "pnan", "pinf")      # one entry, one row


def _hostile(x, how, finite):
    """An argument as nobody expects it (numbers only; sizes stay reasonable)."""
    big = 1e40 if finite else 1e300
    if how in POKES:
        if not (isinstance(x, np.ndarray) and x.size > 1 and x.ndim and x.dtype.kind in "fc"):
            return _hostile(x, {"pnan": "nan", "pinf": "inf", "pneg": "neg"}.get(how, "zero"), finite)
        y = x.copy(order="K")
        if how == "row":
            y[(0,) * (y.ndim - 1)] = 0
        else:
            k = y.size * 2 // 3
            y.flat[k] = {"pnan": 0.0 if finite else np.nan, "pinf": 1.0 if finite else np.inf, "pzero": 0.0}.get(how, -y.flat[k])
        return y
    v = {"zero": 0.0, "one": 1.0, "huge": big, "tiny": 1 / big, "nan": 1.0 if finite else np.nan, "inf": -1.0 if finite else np.inf}.get(how)
    with np.errstate(all="ignore"):
        if isinstance(x, (bool, np.bool_)):
            return not x
        if isinstance(x, (int, np.integer)):
            return {"zero": 0, "one": 1, "neg": -x, "plus": x + 7, "huge": x + 3, "tiny": x - 1, "nan": -1, "inf": x + 2, "const": 2, "rep": x - 2}[how]
        if isinstance(x, (float, np.floating, complex, np.complexfloating)):
            return type(x)({"neg": -x, "plus": x + 7, "const": x * 1e-9, "rep": x * 1e9}[how] if v is None else v)
        if isinstance(x, np.ndarray) and x.size and x.dtype.kind in "fc":
            y = x.copy(order="K")
            if how == "neg":
                return -y
            if how == "plus":
                return y + 7
            if how in ("const", "rep"):
                y[...] = y.flat[0] if how == "const" else np.resize(y.reshape(-1)[:2], y.shape)
            elif how in ("huge", "tiny") or y.ndim == 0:
                y[...] = v
            elif how == "one":
                y.flat[: (y.size + 1) // 2] = v
            else:
                y[...] = v
            return y
    return None


def twist(call, i, how, finite):
    """tweak with hostile values."""
    ls = [(w, k) for w, k in [("a", i) for i in range(len(call.args))] + [("k", k) for k in sorted(call.kwargs)]
          if _hostile((call.args if w == "a" else call.kwargs)[k], "one", finite) is not None]
    if ls:
        w, k = ls[i % len(ls)]
        box = call.args if w == "a" else call.kwargs
        box[k] = _hostile(box[k], how, finite)
    return call


def _twin(x, how):
    if isinstance(x, np.ndarray):
        if not x.size or x.dtype.kind not in "fciu":
            return None
        if how == "kind":
            if x.dtype.kind == "c":
                return x.real.copy() if not x.imag.any() else x.astype("G" if x.dtype.char == "D" else "D")
            return x.astype({"f": complex}.get(x.dtype.kind, float))
        if how == "axis":
            return x[np.newaxis].copy()
        if how == "flat":
            return x.reshape(-1) if x.ndim > 1 else x.reshape(-1, 2) if x.ndim and x.size % 2 == 0 else x[:, np.newaxis] if x.ndim else x.reshape(1)
        y = x.copy(order="K")
        y.flat[0] = -0.0 if how == "zero-" else 0.0
        return y if x.dtype.kind in "fc" else None
    if isinstance(x, (bool, np.bool_)):
        return int(x) if how == "kind" else None
    if isinstance(x, (int, np.integer)):
        return float(x) if how == "kind" else None
    if isinstance(x, (float, np.floating, complex, np.complexfloating)):
        return (complex(x) if how == "kind" else np.array([x]) if how == "axis" else np.array(x) if how == "flat"
                else type(x)(-0.0 if how == "zero-" else 0.0))
    return None


def _tweaked(x, how):
    if how in TWINS:
        return _twin(x, how)
    if isinstance(x, (bool, np.bool_)):
        return not x
    if isinstance(x, (int, np.integer)):
        return x + 1 if how != "type" else None
    if isinstance(x, (float, np.floating, complex, np.complexfloating)):
        return type(x)(x * (1.0 + {"near": 1e-9, "type": 1e-5}.get(how, 0.25))) if np.isfinite(x) else None
    if isinstance(x, Probe):
        fn = x.fn

        def other(*a, **k):
            r = fn(*a, **k)
            return r * 1.03 if isinstance(r, (float, complex)) or isinstance(r, np.ndarray) and r.dtype.kind in "fc" else r
        return Probe(other, x.__name__, x.handout)
    if isinstance(x, np.ndarray) and x.size and x.dtype.kind in "fciu" and x.flags.writeable and x.ndim:
        y = x.copy(order="K")
        if how == "type":
            return y.astype({"d": "f", "D": "F", "f": "d", "F": "D"}.get(y.dtype.char, y.dtype))
        if y.dtype.kind in "iu":
            y.flat[y.size // 2] += 1
        elif how == "far":
            y *= 1.0625
        elif how == "near":
            y *= 1 + 1e-9 if y.dtype.itemsize >= 8 and y.dtype.char != "F" else 1 + 1e-5
        else:
            y.flat[y.size // 2 if how == "mid" else -1] *= 0.99
        return y
    return None


def _refuse(cls, text):
    try:
        e = cls(text)
    except Exception:               # noqa: BLE001
        e = RuntimeError(f"{cls.__name__}: {text}")
    raise e


def path(dotted):
    obj = gt
    for part in dotted.split("."):
        obj = getattr(obj, part)
    return obj


# ================================================================== helpers
def zfreq(g, shape, r=1.5, real=False):
    """Complex frequencies: upper, lower, mixed half plane, sometimes special points."""
    kind = g.pick("up", "up", "low", "mix", "iw", "near")
    z = g.real(shape, -r, r) + 0j
    if kind == "up":
        z = z + 1j * g.real(shape, 0.01, 1)
    elif kind == "low":
        z = z - 1j * g.real(shape, 0.01, 1)
    elif kind == "mix":
        z = z + 1j * g.real(shape, -1, 1)
    elif kind == "iw":
        z = 1j * g.real(shape, 0.1, 5) + 0 * z
    else:
        z = z + 1e-6j
    return z


def special(g, x, points):
    """Put special points (band edges, singularities) into some entries."""
    x = np.array(x)
    if x.ndim and x.size > 2 and g.chance(0.5):
        flat = x.reshape(-1)
        k = g.num(0, flat.size - 1)
        flat[k] = g.s.choice(points)
        flat[(k + 1) % flat.size] = g.s.choice(points)
    elif x.ndim == 0 and g.chance(0.3):
        x = np.array(g.s.choice(points), dtype=x.dtype)
    return x


def hb_(g):
    return float(g.pick(1, 2, 1.0, 0.7, 1.2, 3.0, round(g.scalar(0.5, 2), 3), round(g.scalar(0.5, 2), 3)))


def hilbert(g, D=1.0, kind=None):
    """A Hilbert transform as a user would pass it."""
    kind = kind or g.pick("own", "own", "bethe", "box")
    if kind == "own":
        def h(xi):
            x = np.asarray(xi) / D
            return 2 / D * x * (1 - np.sqrt(1 - x**-2.0 + 0j))
        return h
    if kind == "bethe":
        return partial(gt.bethe_hilbert_transform, half_bandwidth=D)
    if kind == "square":
        return partial(gt.square_gf_z, half_bandwidth=D)
    return partial(gt.lattice.box.gf_z, half_bandwidth=D)


def scal(fn):
    """Accept 0-d results as scalars."""
    return fn


# ================================================================== lattices
_ELL = {"bcc", "fcc", "honeycomb", "kagome", "lieb", "rectangular", "sc", "square", "triangular"}
_LAT = ["bcc", "bethe", "bethez", "box", "fcc", "honeycomb", "kagome", "lieb", "onedim", "rectangular", "sc",
        "square", "triangular"]


def _lat_extra(g, lat):
    if lat == "bethez":
        return {"coordination": g.param(float(g.pick(2, 3, 4, 9)))}
    if lat == "rectangular":
        return {"scale": g.param(float(g.pick(1, 2, 1.5, 3)))}
    return {}


def _reg_lattice(lat):
    ell = lat in _ELL
    big = 200 if ell else 3000

    @op(f"lattice.{lat}.gf_z", weight=1.2)
    def _gf(g):
        D = hb_(g)
        shp = g.shape(big)
        z = special(g, zfreq(g, shp, r=1.5 * D), [D * 1.0, -D, 0.5 * D, 2 * D]).astype(g.cdtype())
        if g.chance(0.15):
            z = z.real.copy()
        Dp = g.param(D)
        if lat in ("bethe", "box", "onedim", "bethez", "bcc", "square") and z.ndim and g.chance(0.15):
            Dp = g.arr(g.real((2,) + (1,) * z.ndim, 0.5, 2))
        fn = path(f"lattice.{lat}.gf_z")
        return Call(fn, g.arr(z), Dp, **_lat_extra(g, lat))

    @op(f"lattice.{lat}.dos")
    def _dos(g):
        D = hb_(g)
        eps = g.real(g.shape(big), -1.3 * D, 1.7 * D)
        eps = special(g, eps, [0.0, D, -D, -0.5 * D, D / 3, 1.5 * D, 1e-6, -2 / 3 * D])
        dt = g.pick("f8", "f8", "f8", "f4", "g", "i8")
        if dt == "i8" and lat in ("bcc", "fcc"):
            dt = "f8"
        if dt == "i8":
            eps = np.round(eps).astype(int)
        elif dt != "f8":
            eps = eps.astype(dt)
        return Call(path(f"lattice.{lat}.dos"), g.arr(eps), g.param(D), **_lat_extra(g, lat))

    mod = path(f"lattice.{lat}") if gt is not None else None
    has = (lambda n: hasattr(mod, n)) if mod is not None else (lambda n: True)
    if has("dos_moment"):
        @op(f"lattice.{lat}.dos_moment", weight=0.5)
        def _mom(g):
            D = g.param(hb_(g))
            if g.chance(0.2):
                D = g.arr(g.real((3,), 0.5, 2))
            return Call(path(f"lattice.{lat}.dos_moment"), g.num(0, 24), D)
    if has("hilbert_transform"):
        @op(f"lattice.{lat}.hilbert_transform", weight=0.5)
        def _hil(g):
            D = hb_(g)
            z = zfreq(g, g.shape(), r=1.5 * D)
            return Call(path(f"lattice.{lat}.hilbert_transform"), g.arr(z), g.param(D), **_lat_extra(g, lat))
    if has("dos_mp"):
        @op(f"lattice.{lat}.dos_mp", "mp", weight=0.7)
        def _mp(g):
            D = hb_(g)
            eps = g.s.choice([g.scalar(-1.2 * D, 1.2 * D), g.scalar(-D, D), 0.0, D, -D / 3, 1e-8])
            if g.chance(0.3):
                eps = mp.mpf(eps)
            return Call(path(f"lattice.{lat}.dos_mp"), eps, *([D] if g.chance(0.8) else []), mp=True)
    if has("gf_z_mp"):
        @op(f"lattice.{lat}.gf_z_mp", "mp", weight=0.7)
        def _gmp(g):
            z = complex(g.scalar(-2, 2), g.pick(1, -1) * g.scalar(0.001, 1))
            return Call(path(f"lattice.{lat}.gf_z_mp"), z, *([g.pick(1, 2, 1.5)] if g.chance(0.7) else []), mp=True)
    if has("gf_ret_t"):
        @op(f"lattice.{lat}.gf_ret_t")
        def _ret(g):
            tt = g.real(g.shape(3000), -3, 20)
            tt = special(g, tt, [0.0, -0.0, 1e-9, -1.0, -1e-12, -1e-300, 40.0])
            kw = {}
            if g.chance(0.5):
                kw["center"] = g.param(round(g.scalar(-1, 1), 2))
            if g.chance(0.1):
                tt = np.round(tt).astype(int)
            return Call(path(f"lattice.{lat}.gf_ret_t"), g.arr(tt), g.param(hb_(g)), **kw)


def register_lattices():
    for lat in _LAT:
        _reg_lattice(lat)

    for name in ("gf_d1_z", "gf_d2_z", "gf_z_inv"):
        @op(f"lattice.bethe.{name}")
        def _d(g, name=name):
            D = hb_(g)
            z = zfreq(g, g.shape(3000), r=1.5 * D).astype(g.cdtype())
            return Call(path(f"lattice.bethe.{name}"), g.arr(z), g.param(D))

    @op("lattice.square.stress_trafo", weight=0.6)
    def _st(g):
        D = hb_(g)
        return Call(path("lattice.square.stress_trafo"), g.arr(zfreq(g, g.shape(100), r=D)), g.param(D))


# ================================================================== statistics
def beta_(g):
    return float(g.pick(1, 10, 2.0, 100.0, 0.5, round(g.scalar(0.5, 20), 2)))


@op("bose_fct", weight=2)
def _(g):
    eps = special(g, g.real(g.shape(3000), -3, 3), [0.0, 10.0, 800.0, -800.0, 1e-9])
    if g.chance(0.25):
        eps = eps + 1j * g.real(eps.shape)
    elif g.chance(0.15):
        eps = eps.astype(np.float32)
    elif g.chance(0.1):
        eps = np.round(eps).astype(int)
    beta = g.param(beta_(g))
    if g.chance(0.15) and eps.ndim:
        beta = g.arr(g.real((2,) + (1,) * eps.ndim, 0.5, 5))
    return Call(gt.bose_fct, g.arr(eps), beta)


@op("fermi_fct", weight=2)
def _(g):
    eps = special(g, g.real(g.shape(3000), -3, 3), [0.0, 10.0, 800.0, -800.0])
    if g.chance(0.4):
        eps = eps + 1j * g.real(eps.shape)
    elif g.chance(0.15):
        eps = eps.astype(g.pick(np.float32, np.longdouble))
    elif g.chance(0.1):
        eps = np.round(eps).astype(int)
    beta = g.param(beta_(g))
    if g.chance(0.15) and eps.ndim:
        beta = g.arr(g.real((2,) + (1,) * eps.ndim, 0.5, 5))
    return Call(gt.fermi_fct, g.arr(eps), beta)


@op("fermi_fct_d1")
def _(g):
    eps = g.real(g.shape(1000), -3, 3)
    if g.chance(0.3):
        eps = eps + 1j * g.real(eps.shape)
    return Call(gt.fermi_fct_d1, g.arr(eps), g.param(beta_(g)))


@op("fermi_fct_inv", weight=0.6)
def _(g):
    return Call(gt.fermi_fct_inv, g.arr(special(g, g.real(g.shape(1000), 0.01, 0.99), [0.0, 1.0, 0.5])), g.param(beta_(g)))


@op("matsubara_frequencies")
def _(g):
    n = g.num(1, 12) if g.chance(0.9) else 2000
    pts = g.pick("range", "arange", "int", "list", "rand")
    pts = {"range": lambda: range(n), "arange": lambda: g.arr(np.arange(n)), "int": lambda: n,
           "list": lambda: list(range(n)), "rand": lambda: g.arr(g.v.integers(-20, 20, size=n))}[pts]()
    return Call(gt.matsubara_frequencies, pts, g.param(beta_(g)))


@op("matsubara_frequencies_b")
def _(g):
    n = g.num(1, 12) if g.chance(0.9) else 2000
    pts = g.s.choice([range(n), np.arange(n), n, list(range(n))])
    return Call(gt.matsubara_frequencies_b, g.arr(pts) if isinstance(pts, np.ndarray) else pts, g.param(beta_(g)))


@op("pade_frequencies", weight=1.5)
def _(g):
    return Call(gt.pade_frequencies, g.num(1, 12) if g.chance(0.85) else g.num(20, 50), g.param(beta_(g)))


# ================================================================== top level
@op("surface_gf_zeps", weight=0.7)
def _(g):
    z = zfreq(g, g.shape(500))
    return Call(gt.surface_gf_zeps, g.arr(z), g.arr(g.real(z.shape)) if g.chance(0.5) else g.param(0.5), g.param(hb_(g)))


@op("hubbard_dimer_gf_z")
def _(g):
    z = zfreq(g, g.shape(500))
    h, u = g.param(hb_(g)), g.param(float(g.pick(0.5, 1, 3.0)))
    if g.chance(0.2):
        h = g.arr(g.real((2,) + (1,) * z.ndim, 0.2, 1))
    return Call(gt.hubbard_dimer_gf_z, g.arr(z), h, u, **({"kind": g.pick("+", "-", "+", "-", "x")} if g.chance(0.7) else {}))


@op("hubbard_I_self_z", weight=0.7)
def _(g):
    return Call(gt.hubbard_I_self_z, g.arr(zfreq(g, g.shape(500))), g.param(float(g.pick(1, 2, 5.0))), g.param(0.5))


def pole_data(g, lead=True, n=None, pos=False, cplx=False):
    n = g.num(1, 6) if n is None else n
    lead_shape = g.pick((), (), (), (2,), (2, 3)) if lead else ()
    poles = g.real((*lead_shape, n), 0.05 if pos else -1, 1)
    weights = g.real((*g.pick((), lead_shape), n), 0.1, 1)
    if cplx:
        poles = poles - 1j * g.real(poles.shape, 0, 0.5)
    return poles, weights


@op("pole_gf_z", weight=1.5)
def _(g):
    poles, weights = pole_data(g, lead=False, cplx=g.chance(0.2))
    z = zfreq(g, g.shape(500))
    if g.chance(0.2):
        poles, weights = pole_data(g, n=3)
        z = z.reshape((-1,) + (1,) * (poles.ndim - 1)) if z.ndim else z
    if g.chance(0.1):
        poles, weights = float(poles.ravel()[0]), 1
        return Call(gt.pole_gf_z, g.arr(z), poles, weights)
    return Call(gt.pole_gf_z, g.arr(z.astype(g.cdtype())), g.arr(poles), g.arr(weights))


def scalar_poles(g, poles, weights):
    """Sometimes a single pole, given as plain number."""
    if g.chance(0.1):
        return poles.ravel()[0].item(), g.pick(1, weights.ravel()[0].item())
    return g.arr(poles), g.arr(weights)


@op("pole_gf_d1_z")
def _(g):
    poles, weights = pole_data(g, lead=False)
    return Call(gt.pole_gf_d1_z, g.arr(zfreq(g, g.shape(500))), *scalar_poles(g, poles, weights))


@op("pole_gf_tau", weight=1.5)
def _(g):
    poles, weights = pole_data(g, lead=False, cplx=g.chance(0.1))
    beta = beta_(g)
    tau = g.real(g.shape(500), 0, beta)
    if g.chance(0.4):
        tau = np.linspace(0, beta, num=g.size(2, 20))
    if g.chance(0.07):
        tau = tau - 0.5 * beta
    return Call(gt.pole_gf_tau, g.arr(tau), *scalar_poles(g, poles, weights), g.param(beta))


@op("pole_gf_tau_b")
def _(g):
    poles, weights = pole_data(g, lead=False, pos=not g.chance(0.1))
    beta = beta_(g)
    tau = np.linspace(0, beta, num=g.size(2, 20))
    return Call(gt.pole_gf_tau_b, g.arr(tau), *scalar_poles(g, poles, weights), g.param(beta))


@op("pole_gf_ret_t", weight=1.5)
def _(g):
    poles, weights = pole_data(g, lead=False, cplx=g.chance(0.3))
    tt = special(g, g.real(g.shape(500), -5, 30), [0.0, -0.0, -40.0, -1e-12, 1e-12])
    if g.chance(0.2):
        tt = np.abs(tt)
    return Call(gt.pole_gf_ret_t, g.arr(tt), *scalar_poles(g, poles, weights))


@op("pole_gf_moments", weight=1.2)
def _(g):
    poles, weights = pole_data(g)
    order = g.s.choice([1, 3, np.arange(1, 6), [1, 2], np.array([2, 5, 1])])
    if isinstance(order, np.ndarray):
        order = g.arr(order)
    return Call(gt.pole_gf_moments, *scalar_poles(g, poles, weights), order)


def gf_iw_data(g, n=None, lead=None, beta=None, cplx_mom=False):
    """A fermionic pole Green's function on Matsubara frequencies, with its moments."""
    n = n or g.s.choice([16, 32, 50, 64, 16, 32, 50, 64, 16, 32, 50, 64, 257, 1024])
    beta = beta or beta_(g)
    lead = g.pick((), (), (2,), (2, 3)) if lead is None else lead
    iws = 1j * np.pi / beta * (2 * np.arange(n) + 1)
    poles = g.real((*lead, 3), -1, 1)
    w = g.real((*lead, 3), 0.1, 1)
    w = w / w.sum(axis=-1, keepdims=True)
    gf = np.sum(w[..., None, :] / (iws[:, None] - poles[..., None, :]), axis=-1)
    mom = np.stack([np.sum(w * poles**k, axis=-1) for k in range(4)], axis=-1)
    tau = np.linspace(0, beta, num=2 * n + 1)
    with np.errstate(all="ignore"):
        gt_ = -np.sum(w[..., None, :] * np.exp(-tau[:, None] * poles[..., None, :])
                      / (1 + np.exp(-beta * poles[..., None, :])), axis=-1)
    return iws, gf, mom, beta, tau, gt_


@op("density_iw", weight=2)
def _(g):
    iws, gf, mom, beta, _, _ = gf_iw_data(g)
    k = g.num(1, 3)
    kw = {}
    if g.chance(0.8):
        kw["moments"] = g.arr(mom[..., :k]) if gf.ndim > 1 or g.chance(0.5) else g.seq(mom[:k])
    if g.chance(0.4):
        kw["n_fit"] = g.num(1, 2)
    if g.chance(0.25):
        kw["weights"] = g.arr(g.real(iws.shape, 0.9, 1.1))
    return Call(gt.density_iw, g.arr(iws), g.arr(gf), g.param(beta), **kw)


@op("density", weight=1.5)
def _(g):
    iws, gf, mom, beta, _, _ = gf_iw_data(g, lead=g.pick((), (2,), (2, 3)))
    kw = {}
    if g.chance(0.6):
        kw["return_err"] = g.pick(True, False, 1e-8, 10.0)
    if g.chance(0.3):
        h = g.real((2, 2))
        pot = h + h.T
        gf = np.broadcast_to(gf.reshape(-1, gf.shape[-1])[:1], (2, gf.shape[-1])).copy()
        kw["matrix"] = True
    else:
        pot = g.real(gf.shape[:-1])
        if gf.ndim == 1 and g.chance(0.5):
            pot = g.real((3,))
            kw["total"] = True
    if kw.get("matrix") and g.chance(0.3):
        gf, kw["total"] = gf[0].copy(), True
    return Call(gt.density, g.arr(gf), g.arr(pot), g.param(beta), **kw)


@op("density_error", weight=0.6)
def _(g):
    iws, gf, *_ = gf_iw_data(g)
    return Call(gt.density_error, g.arr(gf.real), g.arr(iws), **({"noisy": False} if g.chance(0.5) else {}))


@op("density_error2", weight=0.6)
def _(g):
    iws, gf, *_ = gf_iw_data(g)
    return Call(gt.density_error2, g.arr(gf), g.arr(iws))


@op("check_convergence", weight=0.8)
def _(g):
    iws, gf, mom, beta, _, _ = gf_iw_data(g, lead=g.pick((), (2,)))
    kw = {}
    if gf.ndim == 1 and g.chance(0.4):
        pot, kw["total"] = g.real((3,)), True
    elif gf.ndim == 2 and g.chance(0.4):
        h = g.real((2, 2))
        pot, kw["matrix"] = h + h.T, True
        gf = np.broadcast_to(gf[:1], (1, gf.shape[-1])).copy()
    else:
        pot = g.real(gf.shape[:-1])
    if g.chance(0.5):
        kw["order"] = g.num(1, 4)
    return Call(gt.check_convergence, g.arr(gf), g.arr(pot), g.param(beta), **kw)


def occ_function(g, kind=None):
    c = g.scalar(-3, 3)
    kind = kind or g.pick("tanh", "linear", "cubic", "fermi", "steep", "erf")
    if kind == "tanh":
        def f(mu):
            return np.tanh(mu - c)
    elif kind == "linear":
        a = g.scalar(0.1, 3)
        def f(mu):
            return a * (mu - c)
    elif kind == "cubic":
        def f(mu):
            return (mu - c)**3 + 0.1 * (mu - c)
    elif kind == "steep":
        def f(mu):
            return np.tanh(20 * (mu - c))
    elif kind == "erf":
        def f(mu):
            return (mu - c) / np.sqrt(1 + (mu - c)**2)
    else:
        def f(mu):
            return 1 / (1 + np.exp(-4 * (mu - c))) - 0.4
    return f


@op("chemical_potential", "cb", "solver", weight=2)
def _(g):
    pr = g.probe(occ_function(g), "occ_root")
    kw = {}
    if g.chance(0.5):
        kw["mu0"] = g.param(float(g.pick(0, 1, -2, 0.5)))
    if g.chance(0.4):
        kw["step0"] = g.param(float(g.pick(1, 0.5, 2, 0.1)))
    if g.chance(0.5):
        kw["method"] = g.pick("brentq", "brenth", "ridder", "bisect", "toms748")
    if g.chance(0.2):
        kw["xtol"] = 1e-6
    return Call(gt.chemical_potential, pr, probes=[pr], **kw)


# ================================================================== basis
@op("basis.ZeroPole.eval", weight=0.7)
def _(g):
    zp = gt.basis.ZeroPole(g.arr(g.cplx(g.num(0, 3))), g.arr(g.cplx(3)), g.param(1.5))
    return Call(lambda o, z: (o.eval(z), o.reciprocal(z)), zp, g.arr(zfreq(g, g.shape(300))))


@op("basis.ZeroPole.to_ratpol", weight=0.7)
def _(g):
    zp = gt.basis.ZeroPole(g.arr(g.cplx(g.num(1, 3))), g.arr(g.cplx(3)), g.param(1.5))
    return Call(lambda o, z: o.to_ratpol().eval(z), zp, g.arr(zfreq(g, g.shape(300))))


@op("basis.RatPol.eval", weight=0.7)
def _(g):
    P = np.polynomial.Polynomial
    rp = gt.basis.RatPol(P(g.cplx(g.num(1, 4))), P(g.cplx(3)))
    return Call(lambda o, z: o.eval(z), rp, g.arr(zfreq(g, g.shape(300))))


@op("basis.PoleFct.from_moments", weight=1.5)
def _(g):
    cls = g.s.choice([gt.basis.PoleFct, gt.basis.PoleGf])
    mom = g.real((*g.pick((), (2,), (2, 3)), g.dim(0, 5, 9, 12)), -1, 1)
    kw = {"width": g.s.choice([1.0, 2.0, None, None])} if g.chance(0.7) else {}
    m = g.arr(mom) if mom.ndim > 1 or g.chance(0.5) else g.seq(mom)
    return Call(cls.from_moments, m, **kw)


@op("basis.PoleFct.from_z", weight=1.5)
def _(g):
    iws, gf, mom, *_ = gf_iw_data(g)
    cls = g.s.choice([gt.basis.PoleFct, gt.basis.PoleGf])
    k = g.num(0, 3)
    kw = {"n_pole": g.dim(max(k - (1 if g.chance(0.05) else 0), 1), 5, 9, 14)}
    if k:
        kw["moments"] = g.arr(mom[..., :k])
    if g.chance(0.5):
        kw["width"] = g.s.choice([1.0, 1.5, None]) if gf.ndim == 1 else 1.5
    if g.chance(0.3):
        kw["weight"] = g.arr(iws.imag**g.num(1, 3))
    return Call(cls.from_z, g.arr(iws), g.arr(gf), **kw)


@op("basis.PoleGf.from_tau", weight=1.5)
def _(g):
    _, _, mom, beta, tau, gft = gf_iw_data(g)
    k = g.num(0, 2)
    kw = {"n_pole": g.num(3, 6), "beta": g.param(beta)}
    if k:
        kw["moments"] = g.arr(mom[..., :k])
    if g.chance(0.3) and gft.ndim == 1:
        kw["occ"] = float(-gft[-1])
    if g.chance(0.4):
        kw["width"] = 1.5
    if g.chance(0.3):
        kw["weight"] = g.arr(g.real(tau.shape, 0.5, 1))
    return Call(gt.basis.PoleGf.from_tau, g.arr(gft), **kw)


@op("basis.PoleGf.methods", weight=1.5)
def _(g):
    poles, w = pole_data(g, lead=False)
    pg = gt.basis.PoleGf(g.arr(poles), g.arr(w))
    beta = beta_(g)
    tau = np.linspace(0, beta, 9)

    def run(o, z, tau, tt, beta):
        return o.eval_z(z), o.moments(np.arange(1, 4)), o.eval_tau(tau, beta), o.eval_ret_t(tt), o.occ(beta)
    return Call(run, pg, g.arr(zfreq(g, (5,))), g.arr(tau), g.arr(g.real((6,), -3, 9)), beta)


# ================================================================== linalg, matrix
@op("linalg.orth_compl")
def _(g):
    n, m = g.pick((4, 2), (6, 3), (5, 1), (7, 2), (9, 4), (3, 3))
    lead = g.pick((), (2,))
    a = g.cplx((*lead, n, m)) if g.chance(0.5) else g.real((*lead, n, m))
    return Call(gt.linalg.orth_compl, g.arr(a))


@op("linalg.lstsq_ec", weight=1.5)
def _(g):
    m, n, l = g.pick((8, 4, 2), (6, 3, 1), (9, 5, 5), (5, 4, 0), (7, 0, 0), (8, 4, 2))
    c = g.chance(0.3)
    r = (lambda s: g.cplx(s)) if c else (lambda s: g.real(s))
    cm = r((l, n))
    if l == 2 and g.chance(0.3):
        cm[1] = 0 * cm[1]          # rank deficient constraint: fallback branch
    d = r((l,))
    if l == 2 and not np.any(cm[1]) and g.chance(0.6):
        d[1] = 0
    return Call(gt.linalg.lstsq_ec, g.arr(r((m, n))), g.arr(r((m,))), g.arr(cm), g.arr(d),
                **({"rcond": 1e-12} if g.chance(0.3) else {}))


def her(g, n, lead=()):
    h = g.cplx((*lead, n, n)) if g.chance(0.5) else g.real((*lead, n, n))
    return h + np.swapaxes(h.conj(), -1, -2)


@op("matrix.decompose_mat", weight=1.2)
def _(g):
    n = g.dim(1, 4, 9, 17, 33, 65)
    m = (g.cplx if g.chance(0.5) else g.real)((*g.pick((), (2,), (3, 2)), n, n))
    return Call(gt.matrix.decompose_mat, g.arr(m))


@op("matrix.decompose_sym", weight=1.2)
def _(g):
    n = g.dim(1, 4, 9, 17, 33, 65)
    m = (g.cplx if g.chance(0.7) else g.real)((*g.pick((), (2,)), n, n))
    m = m + (np.swapaxes(m, -1, -2) if g.chance(0.9) else 0)
    return Call(gt.matrix.decompose_sym, g.arr(m), **({"check": g.pick(True, False)} if g.chance(0.5) else {}))


@op("matrix.decompose_her", weight=1.2)
def _(g):
    m = her(g, g.dim(1, 4, 9, 17, 33, 65), g.pick((), (2,), (2, 2)))
    if g.chance(0.1):
        m = m + 1j
    return Call(gt.matrix.decompose_her, g.arr(m), **({"check": g.pick(True, False)} if g.chance(0.5) else {}))


@op("matrix.deprecated", weight=0.7)
def _(g):
    n = g.num(1, 3)
    h = her(g, n)
    M = gt.matrix
    fn = g.s.choice([M.decompose_gf, M.decompose_hamiltonian, M.Decomposition.from_hamiltonian, M.Decomposition.from_gf])
    return Call(fn, g.arr(h))


@op("matrix.Decomposition.reconstruct", weight=1.5)
def _(g):
    n = g.dim(1, 4, 9, 17, 33, 65)
    lead = g.pick((), (2,))
    if g.chance(0.5):
        h = her(g, n, lead)
        eig, u = np.linalg.eigh(h)
        dec = gt.matrix.UDecomposition(g.arr(u), g.arr(eig), g.arr(np.swapaxes(u.conj(), -1, -2)))
    else:
        rv = g.cplx((*lead, n, n)) + 2 * np.eye(n)
        dec = gt.matrix.Decomposition(g.arr(rv), g.arr(g.cplx((*lead, n))), g.arr(np.linalg.inv(rv)))
    kw = {}
    if g.chance(0.6):
        kw["eig"] = g.arr(g.cplx((*lead, n)))
    if g.chance(0.7):
        kw["kind"] = g.pick("full", "diag", "Diag", "f", "...ij, ...j, ...ji->...i")
    return Call(lambda d, **k: (d.reconstruct(**k), tuple(d), len(d), str(d), getattr(d, "s", None)), dec, **kw)


@op("matrix.construct_gf", weight=0.6)
def _(g):
    n = g.dim(1, 4, 9, 17, 33, 65)
    return Call(gt.matrix.construct_gf, g.arr(g.cplx((n, n))), g.arr(g.cplx((n,))), g.arr(g.cplx((n, n))))


@op("matrix.gf_2x2_z", "cb", weight=1.2)
def _(g):
    z = zfreq(g, g.shape(200))
    shp = z.shape if g.chance(0.5) else ()
    a = [g.arr(g.real(shp)), g.arr(g.real(shp)), g.arr(g.cplx(shp) if g.chance(0.5) else g.real(shp, 0.2, 1))]
    if g.chance(0.6):
        pr = g.probe(hilbert(g), "hilbert_trafo")
        return Call(gt.matrix.gf_2x2_z, g.arr(z), *a, probes=[pr], hilbert_trafo=pr)
    return Call(gt.matrix.gf_2x2_z, g.arr(z), *a)


# ================================================================== siam
def siam_data(g):
    nb = g.num(1, 4) if g.chance(0.93) else g.num(33, 40)
    lead = g.pick((), (), (2,))
    return g.real(lead), g.real((*lead, nb)), (g.cplx if g.chance(0.3) else g.real)((*lead, nb))


@op("siam.gf0_loc_z")
def _(g):
    e0, eb, v = siam_data(g)
    z = zfreq(g, g.shape(200) if e0.ndim == 0 else (4, 1))
    return Call(gt.siam.gf0_loc_z, g.arr(z), g.arr(e0), g.arr(eb), g.arr(np.abs(v)**2))


@op("siam.hybrid_z")
def _(g):
    e0, eb, v = siam_data(g)
    z = zfreq(g, g.shape(200) if e0.ndim == 0 else (4, 1))
    return Call(gt.siam.hybrid_z, g.arr(z), g.arr(eb), g.arr(np.abs(v)**2))


@op("siam.hamiltonian_matrix")
def _(g):
    e0, eb, v = siam_data(g)
    if e0.ndim == 0:
        e0 = np.array(e0)
    if g.chance(0.15):
        v = v.real.astype(np.float32)
    return Call(gt.siam.hamiltonian_matrix, np.array(e0) if e0.ndim == 0 else g.arr(e0), g.arr(eb), g.arr(v))


for _n in ("ret", "gr", "le"):
    @op(f"siam.gf0_loc_{_n}_t")
    def _(g, _n=_n):
        e0, eb, v = siam_data(g)
        tt = g.real((g.size(1, 9),), -2 if _n != "ret" or g.chance(0.4) else 0, 9)
        if e0.ndim:
            tt = tt[:, None]
        kw = {} if _n == "ret" else {"beta": g.param(beta_(g))}
        return Call(path(f"siam.gf0_loc_{_n}_t"), g.arr(tt), np.array(e0) if e0.ndim == 0 else g.arr(e0), g.arr(eb), g.arr(v), **kw)


# ================================================================== fourier
def user_fourier(kind):
    """A user-written Fourier back-end."""
    if kind == "iw2tau":
        def f(gf_iw, beta):
            all_ = np.zeros((*gf_iw.shape[:-1], 2 * gf_iw.shape[-1] + 1), dtype=complex)
            all_[..., 1:-1:2] = gf_iw
            return np.fft.hfft(all_ / beta)[..., :all_.shape[-1]].copy()
    elif kind == "tau2iv":
        def f(gf_tau, beta):
            return beta * np.fft.ihfft(gf_tau[..., :-1])
    else:
        def f(gf_tau, beta):
            full = np.concatenate((-gf_tau[..., :-1], gf_tau), axis=-1)
            return -beta * np.fft.ihfft(full[..., :-1])[..., 1::2].copy()
    return f


@op("fourier.iw2tau", "cb", weight=2)
def _(g):
    iws, gf, mom, beta, *_ = gf_iw_data(g)
    kw, probes = {}, []
    if g.chance(0.7):
        kw["moments"] = g.arr(mom[..., :g.num(1, 3)])
    if g.chance(0.3):
        kw["n_fit"] = g.num(1, 2)
    f = g.pick("default", "soft", "user", "user", "lib")
    if f == "soft":
        kw["fourier"] = gt.fourier.iw2tau_dft_soft
    elif f != "default":
        pr = g.probe(user_fourier("iw2tau") if f == "user" else gt.fourier.iw2tau_dft, "fourier")
        kw["fourier"], probes = pr, [pr]
    return Call(gt.fourier.iw2tau, g.arr(gf), g.param(beta), probes=probes, **kw)


for _n in ("iw2tau_dft", "iw2tau_dft_soft"):
    @op(f"fourier.{_n}")
    def _(g, _n=_n):
        iws, gf, mom, beta, *_ = gf_iw_data(g)
        return Call(path(f"fourier.{_n}"), g.arr(gf - 1 / iws), g.param(beta))

for _n in ("tau2iv_dft", "tau2iv_ft_lin", "tau2iw_dft", "tau2iw_ft_lin"):
    @op(f"fourier.{_n}")
    def _(g, _n=_n):
        *_r, beta, tau, gft = gf_iw_data(g)
        return Call(path(f"fourier.{_n}"), g.arr(gft), g.param(beta))


@op("fourier.tau2iv", "cb", weight=1.5)
def _(g):
    *_r, beta, tau, gft = gf_iw_data(g)
    kw, probes = {}, []
    f = g.pick("default", "dft", "user", "lib")
    if f == "dft":
        kw["fourier"] = gt.fourier.tau2iv_dft
    elif f != "default":
        pr = g.probe(user_fourier("tau2iv") if f == "user" else gt.fourier.tau2iv_ft_lin, "fourier")
        kw["fourier"], probes = pr, [pr]
    return Call(gt.fourier.tau2iv, g.arr(gft), g.param(beta), probes=probes, **kw)


@op("fourier.tau2iw", "cb", weight=2)
def _(g):
    iws, gf, mom, beta, tau, gft = gf_iw_data(g)
    kw, probes = {}, []
    if g.chance(0.5):
        kw["moments"] = g.arr(mom[..., :g.num(1, 2)] + (0.1 if g.chance(0.2) else 0))
    if g.chance(0.3):
        kw["n_pole"] = g.num(2, 4)
    f = g.pick("default", "dft", "user", "lib")
    if f == "dft":
        kw["fourier"] = gt.fourier.tau2iw_dft
    elif f != "default":
        pr = g.probe(user_fourier("tau2iw") if f == "user" else gt.fourier.tau2iw_ft_lin, "fourier")
        kw["fourier"], probes = pr, [pr]
    return Call(gt.fourier.tau2iw, g.arr(gft), g.param(beta), probes=probes, **kw)


@op("fourier.izp2tau", "slow", weight=0.8)
def _(g):
    beta = beta_(g)
    izp, _r = gt.pade_frequencies(g.num(3, 5), beta=beta)
    poles = g.real((2,))
    gf = np.sum(0.5 / (izp[:, None] - poles), axis=-1)
    tau = np.linspace(0, beta, g.size(2, 8))
    kw = {"moments": g.seq([1.0, float(poles.mean())])} if g.chance(0.4) else {}
    return Call(gt.fourier.izp2tau, g.arr(izp), g.arr(gf), g.arr(tau), beta, **kw)


@op("fourier.tau2izp", "slow", weight=0.8)
def _(g):
    iws, gf, mom, beta, tau, gft = gf_iw_data(g, n=16, lead=())
    izp, _r = gt.pade_frequencies(g.num(3, 4), beta=beta)
    kw = {}
    if g.chance(0.4):
        kw["moments"] = g.seq(mom[:g.num(1, 2)] + (0.1 if g.chance(0.2) else 0))
    if g.chance(0.25):
        kw["occ"] = float(-gft[-1])
    if g.chance(0.2):
        kw["weight"] = g.arr(g.real(tau.shape, 0.5, 1))
    return Call(gt.fourier.tau2izp, g.arr(gft), beta, g.arr(izp), **kw)


def tt_data(g, n=None, lead=None, adv=False):
    n = n or g.s.choice([9, 16, 21, 40, 9, 16, 21, 40, 9, 16, 21, 40, 130])
    lead = g.pick((), (), (2,)) if lead is None else lead
    tt = np.linspace(0, 8.0, n) if not g.chance(0.3) else g.pick(1.0, 1.0, 0.5, 2.0) * np.arange(n)
    if adv:
        tt = -tt
    poles = g.real((*lead, 3), -1, 1)
    w = g.real((*lead, 3), 0.1, 1)
    gf_t = -1j * np.sum(w[..., None, :] * np.exp(-1j * poles[..., None, :] * tt[:, None] - 0.1 * abs(tt[:, None])), axis=-1)
    z = g.real((g.size(1, 7),), -1, 1) + (-1 if adv else 1) * 1j * g.real((1,), 0.1, 0.6)
    if g.chance(0.15):
        z[0] = 0
    wide = g.pick(*[""] * 14, "z", "tt", "gf")
    if wide == "z":
        z = z.astype(np.clongdouble)
    elif wide == "tt":
        tt = tt.astype(np.longdouble)
    elif wide == "gf":
        gf_t = gf_t.astype(np.clongdouble)
    return tt, gf_t, z


def zarg(g, z):
    """Frequencies: mostly one axis, sometimes an array with none or with two."""
    how = g.pick(*[1] * 12, 0, 2)
    if how == 0 and z.size:
        return np.array(z[0])
    if how == 2 and z.size and not z.size % 2:
        return g.arr(z.reshape(2, -1))
    return g.arr(z)


for _n in ("tt2z_trapz", "tt2z_simps", "tt2z_lin"):
    @op(f"fourier.{_n}", weight=1.2)
    def _(g, _n=_n):
        tt, gf_t, z = tt_data(g, adv=g.chance(0.2))
        if _n == "tt2z_lin" and g.chance(0.1):
            tt = tt**2
        return Call(path(f"fourier.{_n}"), g.arr(tt), g.arr(gf_t), zarg(g, z))


@op("fourier.tt2z_pade", "cb", weight=1.2)
def _(g):
    tt, gf_t, z = tt_data(g)
    kw, probes = {}, []
    if g.chance(0.4):
        kw["degree"] = g.pick(-1, 0)
    if g.chance(0.4):
        kw["quad"] = g.pick("trapz", "simps", "bad")
    if g.chance(0.5):
        f = g.s.choice([gt.hermpade.pade, gt.hermpade.pader, gt.hermpade.pade_lstsq])
        pr = g.probe(f, "pade")
        kw["pade"], probes = pr, [pr]
    elif g.chance(0.3):
        kw["fast"] = True
    return Call(gt.fourier.tt2z_pade, g.arr(tt), g.arr(gf_t), g.arr(z), probes=probes, **kw)


@op("fourier.tt2z_herm2", "cb", weight=1.2)
def _(g):
    tt, gf_t, z = tt_data(g)
    z = np.where(z.imag > 0, z, 0.1 + 0.3j)
    kw, probes = {}, []
    if g.chance(0.4):
        kw["quad"] = g.pick("trapz", "simps")
    if g.chance(0.6):
        H = gt.hermpade
        f = g.s.choice([H.Hermite2.from_taylor, H.Hermite2.from_taylor_lstsq, H._Hermite2Ret.from_taylor])
        pr = g.probe(f, "herm2")
        kw["herm2"], probes = pr, [pr]
    return Call(gt.fourier.tt2z_herm2, g.arr(tt), g.arr(gf_t), g.arr(z), probes=probes, **kw)


@op("fourier.tt2z_lpz", weight=1.2)
def _(g):
    tt, gf_t, z = tt_data(g)
    kw = {}
    if g.chance(0.5):
        kw["order"] = g.num(2, tt.size // 2 + (3 if g.chance(0.2) else 0))
    if g.chance(0.3):
        kw["quad"] = g.pick("trapz", "simps")
    if g.chance(0.3):
        kw["rcond"] = 1e-8
    return Call(gt.fourier.tt2z_lpz, g.arr(tt), g.arr(gf_t), zarg(g, z), **kw)


@op("fourier.tt2z", "cb", weight=1.5)
def _(g):
    tt, gf_t, z = tt_data(g, adv=g.chance(0.3))
    if g.chance(0.1):
        z = -z
    if g.chance(0.08):
        z = z[:0]
    kw, probes = {}, []
    F = gt.fourier
    if g.chance(0.7):
        f = g.s.choice([F.tt2z_lin, F.tt2z_trapz, F.tt2z_simps, F.tt2z_pade, F.tt2z_lpz])
        if g.chance(0.7):
            f = g.probe(f, "laplace")
            probes = [f]
        kw["laplace"] = f
    return Call(F.tt2z, g.arr(tt), g.arr(gf_t), zarg(g, z), probes=probes, **kw)


# ================================================================== hermpade, linear prediction
def taylor(g, n):
    k = np.arange(n)
    a = g.cplx((3,)) if g.chance(0.5) else g.real((3,))
    w = g.real((3,), 0.2, 1)
    an = np.sum(w[:, None] * (0.9 * a[:, None])**k, axis=0)
    return an + 1e-3 * g.real((n,)) if g.chance(0.75) else an        # without noise: a rational function of low degree


for _n in ("pade", "pade_lstsq", "pader"):
    @op(f"hermpade.{_n}", weight=1.2)
    def _(g, _n=_n):
        n = g.dim(6, 14, 24, 40)
        num = g.num(0, n // 2)
        den = g.num(0, n - num - 1) if g.chance(0.95) else n
        kw = {}
        if _n == "pade" and g.chance(0.4):
            kw["fast"] = True
        elif _n != "pade" and g.chance(0.4):
            kw["rcond"] = 1e-10
        an = taylor(g, n)
        if g.chance(0.05):
            an = 0 * an
        z = g.cplx((4,))
        return Call(lambda a, z, **k: (lambda r: (r, r.eval(z)))(path(f"hermpade.{_n}")(a, num, den, **k)),
                    g.arr(an) if g.chance(0.7) else g.seq(an), g.arr(z), **kw)


for _n in ("hermite2", "hermite2_lstsq"):
    @op(f"hermpade.{_n}")
    def _(g, _n=_n):
        d = g.num(1, 4)
        an = taylor(g, 3 * d + 2 + (g.num(0, 3)))
        kw = {"rcond": 1e-10} if _n != "hermite2" and g.chance(0.4) else {}
        if _n != "hermite2" and g.chance(0.3):
            kw["fix_qr"] = g.pick(0, 1, -1)
        if g.chance(0.07):
            an = 0 * an
        return Call(path(f"hermpade.{_n}"), g.arr(an), d, d, d, **kw)


for _n in ("Hermite2.from_taylor", "Hermite2.from_taylor_lstsq", "_Hermite2Ret.from_taylor", "_Hermite2Ret.from_taylor_lstsq"):
    @op(f"hermpade.{_n}")
    def _(g, _n=_n):
        d = g.num(1, 4)
        an = taylor(g, 3 * d + 2)
        return Call(lambda a, z: path(f"hermpade.{_n}")(a, deg_p=d, deg_q=d, deg_r=d).eval(z), g.arr(an), g.arr(g.cplx((g.size(1, 6),))))


@op("hermpade.Hermite2.methods")
def _(g):
    d = g.num(1, 3)
    her_ = gt.hermpade.Hermite2.from_taylor(taylor(g, 3 * d + 2), deg_p=d, deg_q=d, deg_r=d)
    return Call(lambda h, z: (h.eval(z), h.eval_branches(z), h.eval(z)), her_, g.arr(g.cplx((g.size(1, 6),))))


@op("hermpade.Hermite2.make")
def _(g):
    d = g.num(1, 3)
    return Call(getattr(gt.hermpade.Hermite2, g.pick("from_taylor", "from_taylor_lstsq")), g.arr(taylor(g, 3 * d + 2)), deg_p=d, deg_q=d, deg_r=d)


@op("linearprediction.companion")
def _(g):
    a = (g.cplx if g.chance(0.5) else g.real)((*g.pick((), (2,)), g.dim(2, 6) if g.chance(0.9) else 1))
    return Call(gt.linearprediction.companion, g.arr(a))


def lp_data(g):
    n = g.dim(12, 30, 70, 140)
    lead = g.pick((), (), (2,), (2, 2))
    k = np.arange(n)
    c = g.chance(0.6)
    om = g.real((*lead, 3), 0, 3)
    x = np.sum(np.exp((1j * om[..., None, :] - 0.02) * k[:, None]), axis=-1)
    return x if c else x.real.copy()


@op("linearprediction.pcoeff_covar", weight=1.2)
def _(g):
    x = lp_data(g)
    return Call(gt.linearprediction.pcoeff_covar, g.arr(x), g.num(2, x.shape[-1] // 2 + (2 if g.chance(0.2) else 0)),
                **({"rcond": 1e-8} if g.chance(0.3) else {}))


@op("linearprediction.pcoeff_burg", weight=1.2)
def _(g):
    x = lp_data(g)
    return Call(gt.linearprediction.pcoeff_burg, g.arr(x), g.num(1, x.shape[-1] // 2))


@op("linearprediction.predict", weight=1.5)
def _(g):
    x = lp_data(g)
    order = min(g.dim(2, 5), x.shape[-1])
    pc = (g.cplx if np.iscomplexobj(x) else g.real)((*x.shape[:-1], order)) * 0.4
    if g.chance(0.12) and pc.ndim > 1:
        pc = pc[..., 0, :].copy() if g.chance(0.5) else np.concatenate([pc, pc], axis=0)
    st = g.chance(0.5)
    if st and not np.iscomplexobj(x):
        x, pc = x + 0j, pc + 0j
    kw = {"stable": True} if st else {}
    return Call(gt.linearprediction.predict, g.arr(x), g.arr(pc), num=g.num(-1 if g.chance(0.1) else 0, 8), **kw)


@op("linearprediction.plot_roots", "plot", weight=0.15)
def _(g):
    from matplotlib.figure import Figure
    fig = Figure()
    ax = fig.add_subplot()
    pc = g.real((g.num(2, 5),))
    return Call(lambda p, a: (gt.linearprediction.plot_roots(p, axis=a), None)[1], g.arr(pc), ax)


# ================================================================== pade
def pade_data(g, lead=None, n=None, noise=0.0, precise=False):
    n = n or (g.s.choice([8, 10, 12, 17]) if g.chance(0.92) else g.s.choice([26, 40, 70]))
    lead = g.pick((), (), (2,), (2, 2)) if lead is None else lead
    beta = 10.0
    z_in = 1j * np.pi / beta * (2 * np.arange(n) + 1)
    poles = g.real((*lead, 4), -1, 1)
    w = g.real((*lead, 4), 0.1, 1)
    f = np.sum(w[..., None, :] / (z_in[:, None] - poles[..., None, :]), axis=-1)
    f = f * (1 + noise * g.real(f.shape))
    if precise:
        f = f.astype(np.clongdouble)
    z_out = g.real((g.size(1, 6),), -1.2, 1.2) + 1j * g.pick(0.05, 0.3)
    if g.chance(0.15):
        z_out = z_out.reshape(1, -1)
    return z_in, f, z_out


@op("pade.coefficients", "pade", weight=1.5)
def _(g):
    z_in, f, _ = pade_data(g, precise=g.chance(0.3))
    if g.chance(0.1):
        z_in = z_in[:-1]
    return Call(gt.pade.coefficients, g.arr(z_in), g.arr(f))


@op("pade.masked_coefficients", "pade")
def _(g):
    z_in, f, _ = pade_data(g, n=g.num(4, 8))
    if g.chance(0.6):
        f = f.copy()
        k = g.num(1, f.shape[-1] - 2)
        f[..., k] = f[..., 0] * g.pick(1, 1e-7, 1e7)
        f[..., k + 1] = f[..., k] * g.pick(1, 1e-6, 1e6)
    return Call(gt.pade.masked_coefficients, g.arr(z_in), g.arr(f))


def _coeff(z, f):
    c = f.astype(np.clongdouble)
    for ii in range(z.size - 1):
        c[..., ii + 1:] = (c[..., ii:ii + 1] / c[..., ii + 1:] - 1) / (z[ii + 1:] - z[ii])
    return c.astype(complex)


@op("pade.calc_iterator", "pade", weight=1.5)
def _(g):
    z_in, f, z_out = pade_data(g)
    c = _coeff(z_in, f)
    return Call(lambda zo, zi, co: [np.array(p) for p in gt.pade.calc_iterator(zo, zi, co)], g.arr(z_out), g.arr(z_in), g.arr(c))


@op("pade.calc_iterator.part", "pade")
def _(g):
    z_in, f, z_out = pade_data(g)
    k = g.num(1, 5)

    def run(zo, zi, co):
        it = gt.pade.calc_iterator(zo, zi, co)          # consumed in part, then dropped
        return [np.array(next(it)) for _ in range(k)]
    return Call(run, g.arr(z_out), g.arr(z_in), g.arr(_coeff(z_in, f)))


def kind_(g, n):
    K = g.s.choice([gt.pade.KindGf, gt.pade.KindSelf])
    return K(g.num(2, 5), n)


@op("pade.Kind", "pade", weight=0.7)
def _(g):
    a, b = g.num(0, 5), g.num(3, 15)
    return Call(lambda a, b: [(len(k), k[0], k[-1], list(range(*k.slice.indices(100))), repr(k), list(k.islice(range(40))))
                              for k in (gt.pade.KindGf(a, b), gt.pade.KindSelf(a, b))], a, b)


@op("pade.Kind.make", "pade", weight=0.5)
def _(g):
    a, b = g.num(0, 5), g.num(3, 15)
    return Call(lambda a, b: [gt.pade.KindGf(a, b), gt.pade.KindSelf(a, b)], a, b)


@op("basis.make", weight=0.5)
def _(g):
    lead = g.pick((), (2,))
    n = g.num(1, 4)
    a = [g.arr(g.cplx((*lead, n))) for _ in range(2)]
    amp = g.arr(g.cplx(lead)) if lead else 1.5
    return Call(lambda p, q, amp: [gt.basis.ZeroPole(p, q, amp), gt.basis.ZeroPole(p, q).to_ratpol() if p.ndim == 1 else None,
                                   gt.basis.PoleFct(p, q), gt.basis.PoleGf(p, q)], *a, amp)


def valid_(g, kind, lead):
    v = g.v.random((len(kind), *lead)) < 0.7
    v[0] = True
    if len(kind) > 1:
        v[-1] = True
    return v


@op("pade.Averager", "pade", weight=1.5)
def _(g):
    z_in, f, z_out = pade_data(g)
    k = kind_(g, z_in.size)
    v = valid_(g, k, f.shape[:-1] if g.chance(0.7) else ())
    if g.chance(0.05):
        v = v.astype(int)
    if g.chance(0.1):
        f[..., 2] = np.nan

    def run(zi, co, v, zo, k):
        av = gt.pade.Averager(zi, co, valid_pades=v, kind=k)
        return av(zo), av(zo[..., :1]), av(zo)
    return Call(run, g.arr(z_in), g.arr(_coeff(z_in, f)), g.arr(v), g.arr(z_out), k)


@op("pade.Averager.call", "pade", weight=1.5)
def _(g):
    z_in, f, z_out = pade_data(g)
    k = kind_(g, z_in.size)
    v = valid_(g, k, f.shape[:-1] if g.chance(0.7) else ())
    zi, co, v = g.arr(z_in), g.arr(_coeff(z_in, f)), g.arr(v)
    av = gt.pade.Averager(zi, co, valid_pades=v, kind=k)
    return Call(av, g.arr(z_out), extra=[zi, co, v, k])


@op("pade.Mod_Averager", "pade", "cb", weight=1.5)
def _(g):
    z_in, f, z_out = pade_data(g)
    k = kind_(g, z_in.size)
    v = valid_(g, k, f.shape[:-1] if g.chance(0.7) else ())
    m = g.pick("inv", "imag", "id")
    fn = {"inv": lambda z, p: 1 / p, "imag": lambda z, p: p.imag.copy(), "id": lambda z, p: p}[m]
    pr = g.probe(fn, "mod_fct")
    kw = {"vectorized": g.pick(True, False)} if g.chance(0.6) else {}

    def run(zi, co, v, zo, k):
        av = gt.pade.Mod_Averager(zi, co, pr, valid_pades=v, kind=k, **kw)
        return av(zo), av(zo)
    return Call(run, g.arr(z_in), g.arr(_coeff(z_in, f)), g.arr(v), g.arr(z_out), k, probes=[pr])


@op("pade.Mod_Averager.call", "pade", "cb", weight=1.2)
def _(g):
    z_in, f, z_out = pade_data(g)
    k = kind_(g, z_in.size)
    v = valid_(g, k, f.shape[:-1] if g.chance(0.7) else ())
    m = g.pick("inv", "imag", "arg")
    fn = {"inv": lambda z, p: 1 / p, "imag": lambda z, p: p.imag.copy(), "arg": lambda z, p, a=1.0: p * a}[m]
    pr = g.probe(fn, "mod_fct")
    zi, co, v = g.arr(z_in), g.arr(_coeff(z_in, f)), g.arr(v)
    av = gt.pade.Mod_Averager(zi, co, pr, valid_pades=v, kind=k, vectorized=g.pick(True, False))
    return Call(av, g.arr(z_out), extra=[zi, co, v, k], probes=[pr], **({"a": 0.5} if m == "arg" and g.chance(0.5) else {}))


def filter_(g, ):
    P = gt.pade
    return g.s.choice([lambda: P.FilterNegImag(g.pick(1e-8, 0.1)), lambda: P.FilterHighVariance(rel_num=0.5),
                       lambda: P.FilterHighVariance(abs_num=g.num(1, 4)), lambda: P.FilterNegImagNum(abs_num=g.num(1, 4)),
                       lambda: P.FilterHighVariance(abs_num=40), lambda: P.FilterNegImagNum(abs_num=40)])()


@op("pade.filters", "pade", weight=1.2)
def _(g):
    z_in, f, z_out = pade_data(g, noise=1e-4)
    fl = filter_(g)
    k = kind_(g, z_in.size)
    zo = z_out.reshape(-1)
    return Call(lambda zo, zi, co: fl(k.islice(gt.pade.calc_iterator(zo, zi, co))), g.arr(zo), g.arr(z_in), g.arr(_coeff(z_in, f)))


@op("pade.filter.call", "pade", weight=1.2)
def _(g):
    z_in, f, z_out = pade_data(g, noise=1e-4)
    k = kind_(g, z_in.size)
    zo, c = z_out.reshape(-1), _coeff(z_in, f)
    pades = [p for i, p in enumerate(gt.pade.calc_iterator(zo, z_in, c)) if i % 2 == 0]
    return Call(filter_(g), [g.arr(np.array(p)) for p in pades[:len(k) + 2]])


@op("pade.apply_filter", "pade", "cb", weight=1.2)
def _(g):
    z_in, f, z_out = pade_data(g, noise=1e-4)
    k = kind_(g, z_in.size)
    fls = [g.probe(filter_(g), f"filter{i}") for i in range(g.num(1, 3))]
    zo = z_out.reshape(-1)
    return Call(lambda zo, zi, co: gt.pade.apply_filter(*fls, validity_iter=k.islice(gt.pade.calc_iterator(zo, zi, co))),
                g.arr(zo), g.arr(z_in), g.arr(_coeff(z_in, f)), probes=fls)


@op("pade.averaged", "pade", "cb", weight=2)
def _(g):
    z_in, f, z_out = pade_data(g, noise=g.pick(0, 1e-4), precise=g.chance(0.15))
    k = kind_(g, z_in.size)
    kw = {"fct_z": g.arr(f)} if g.chance(0.7) else {"coeff": g.arr(_coeff(z_in, f))}
    if g.chance(0.4):
        kw["valid_z"] = g.arr(g.real((4,), -1, 1) + 0.1j)
    probes = []
    if g.chance(0.7):
        fls = [g.probe(filter_(g), f"filter{i}") for i in range(g.num(1, 2))]
        probes = fls
        kw["filter_valid"] = fls[0] if len(fls) == 1 and g.chance(0.5) else (fls if g.chance(0.5) else tuple(fls))
    return Call(gt.pade.averaged, g.arr(z_out), g.arr(z_in), kind=k, probes=probes, extra=[k], **kw)


@op("pade.avg_no_neg_imag", "pade", weight=1.2)
def _(g):
    z_in, f, z_out = pade_data(g)
    k = kind_(g, z_in.size)
    kw = {"threshold": 0.1} if g.chance(0.5) else {}
    return Call(gt.pade.avg_no_neg_imag, g.arr(z_out), g.arr(z_in), fct_z=g.arr(f), kind=k, extra=[k], **kw)


# ================================================================== polepade
def pp_data(g, n=None):
    n = n or g.s.choice([20, 24, 30, 30, 25, 36])
    np_ = g.dim(2, 4, 6, 8)
    z = (1j * np.pi / 10 * (2 * np.arange(n) + 1)) if g.chance(0.6) else g.real((n,), -2, 2) + 0.5j
    poles, w = g.real((np_,), -1, 1), g.real((np_,), 0.2, 1)
    f = np.sum(w / (z[:, None] - poles), axis=-1)
    if g.chance(0.25):
        f = f + 1e-7 * g.cplx(f.shape)
    return z, f, poles, w


@op("polepade.number_poles", "cb", weight=1.2)
def _(g):
    z, f, poles, w = pp_data(g)
    kw, probes = {}, []
    if g.chance(0.4):
        kw["degree"] = g.pick(-1, 0, 0, 1, 2, -2)
    if g.chance(0.3):
        kw["weight"] = g.arr(g.real(z.shape, 0.5, 1))
    if g.chance(0.3):
        kw["n_poles0"] = g.num(0, 5) if g.chance(0.8) else 99
    if g.chance(0.5):
        pr = g.probe(np.polynomial.chebyshev.chebvander, "vandermond")
        kw["vandermond"], probes = pr, [pr]
    return Call(gt.polepade.number_poles, g.arr(z), g.arr(f), probes=probes, **kw)


@op("polepade.poles", "cb", weight=1.2)
def _(g):
    z, f, poles, w = pp_data(g)
    kw, probes = {"m": g.num(1, 4)}, []
    if g.chance(0.4):
        kw["n"] = kw["m"]
    if g.chance(0.3):
        kw["weight"] = g.arr(g.real(z.shape, 0.5, 1))
    if g.chance(0.5):
        pr = g.probe(np.polynomial.polynomial.polyvander, "vandermond")
        kw["vandermond"], probes = pr, [pr]
    return Call(gt.polepade.poles, g.arr(z), g.arr(f), probes=probes, **kw)


@op("polepade.zeros", "cb", weight=1.2)
def _(g):
    z, f, poles, w = pp_data(g)
    kw, probes = {}, []
    if g.chance(0.4):
        kw["n"] = poles.size
    if g.chance(0.3):
        kw["weight"] = g.arr(g.real(z.shape, 0.5, 1))
    if g.chance(0.5):
        pr = g.probe(np.polynomial.polynomial.polyvander, "vandermond")
        kw["vandermond"], probes = pr, [pr]
    return Call(gt.polepade.zeros, g.arr(z), g.arr(f), g.arr(poles), probes=probes, **kw)


@op("polepade.asymptotic", weight=0.8)
def _(g):
    z, f, poles, w = pp_data(g)
    kw = {"weight": g.arr(g.real(z.shape, 0.5, 1))} if g.chance(0.4) else {}
    return Call(gt.polepade.asymptotic, g.arr(z), g.arr(f), g.arr(g.cplx((poles.size - 1,))), g.arr(poles), **kw)


@op("polepade.residues_ols", weight=1.2)
def _(g):
    z, f, poles, w = pp_data(g)
    kw = {"weight": g.arr(g.real(z.shape, 0.5, 1))} if g.chance(0.4) else {}
    if g.chance(0.5):
        kw["moments"] = g.seq([w.sum(), (w * poles).sum(), 1, 1, 1, 1][:g.num(1, 2) if g.chance(0.9) else 6])
    if g.chance(0.15):
        poles = np.concatenate([poles, poles[:1]]) if g.chance(0.5) else g.real((z.size + 1,))     # rank deficient, under-determined
    return Call(gt.polepade.residues_ols, g.arr(z), g.arr(f), g.arr(poles), **kw)


@op("polepade.continuation", "cb", weight=2)
def _(g):
    z, f, poles, w = pp_data(g)
    kw, probes = {}, []
    if g.chance(0.4):
        kw["degree"] = g.pick(-1, -1, 0, 1)
    if g.chance(0.3):
        kw["weight"] = g.arr(g.real(z.shape, 0.5, 1))
    if g.chance(0.3):
        kw["moments"] = g.seq([w.sum()])
    if g.chance(0.4):
        kw["rotate"] = g.pick(True, False)
    if g.chance(0.3):
        kw["real_asymp"] = False
    if g.chance(0.5):
        pr = g.probe(g.s.choice([np.polynomial.polynomial.polyvander, np.polynomial.chebyshev.chebvander]), "vandermond")
        kw["vandermond"], probes = pr, [pr]
    return Call(gt.polepade.continuation, g.arr(z), g.arr(f), probes=probes, **kw)


@op("polepade.PadeApprox.plot", "plot", weight=0.15)
def _(g):
    from matplotlib.figure import Figure
    m = g.num(2, 4)
    pa = gt.polepade.PadeApprox(g.arr(g.cplx((m - 1,))), g.arr(g.cplx((m,))), g.arr(g.cplx((m,))), 1.5)
    ax = Figure().add_subplot()
    return Call(lambda o, a, r: (o.plot(residue=r, axis=a), None)[1], pa, ax, g.pick(True, False))


@op("polepade.PadeApprox", weight=1)
def _(g):
    m = g.num(1, 4)
    pa = gt.polepade.PadeApprox(g.arr(g.cplx((m - g.pick(0, 1),))), g.arr(g.cplx((m,))), g.arr(g.cplx((m,))), g.s.choice([1.5, np.array(0.7)]))
    return Call(lambda o, z: (o.eval_polefct(z), o.eval_zeropole(z), o.moments(np.arange(1, 4)), o.eval_polefct(z)), pa, g.arr(zfreq(g, g.shape())))


# ================================================================== cpa
def cpa_data(g, n=None, lead=True):
    n = n or g.num(1, 5)
    nc = g.num(1, 3)
    z = g.real((n,), -0.8, 0.8) + 1j * g.real((n,), 0.2, 0.6)
    if g.chance(0.3):
        z = 1j * np.pi / 5 * (2 * np.arange(n) + 1)
    e = g.real((nc,), -0.4, 0.4) * g.pick(1, 2.5)
    c = g.real((nc,), 0.2, 1)
    c = c / c.sum()
    return z, e, c


@op("cpa.gf_cmpt_z", "cb", weight=1.2)
def _(g):
    z, e, c = cpa_data(g)
    pr = g.probe(hilbert(g), "hilbert_trafo")
    s = g.cplx(z.shape, 0.2) - 0.2j
    return Call(gt.cpa.gf_cmpt_z, g.arr(z), g.arr(s), g.arr(e), pr, probes=[pr])


for _n in ("self_root_eq", "self_fxdpnt_eq", "restrict_self_root_eq"):
    @op(f"cpa.{_n}", "cb", weight=1.2)
    def _(g, _n=_n):
        z, e, c = cpa_data(g)
        pr = g.probe(hilbert(g), "hilbert_trafo")
        s = g.cplx(z.shape, 0.2) - (0.25j if g.chance(0.5) else 0)
        return Call(path(f"cpa.{_n}"), g.arr(s), g.arr(z), g.arr(e), g.arr(c), pr, probes=[pr])


@op("cpa.solve_root", "cb", "solver", weight=2.5)
def _(g):
    z, e, c = cpa_data(g)
    D = 1.0
    pr = g.probe(hilbert(g, D), "hilbert_trafo")
    kw, probes = {}, [pr]
    if g.chance(0.3):
        kw["restricted"] = g.pick(True, False)
    if g.chance(0.3):
        kw["method"] = g.pick("anderson", "krylov", "broyden1", "broyden2", "df-sane")
    if g.chance(0.3):
        kw["tol"] = g.pick(1e-6, 1e-10)
    if g.chance(0.2):
        kw["options"] = {"fatol": 1e-8} if kw.get("method") == "df-sane" else g.s.choice([{"fatol": 1e-8}, {"fatol": 1e-7, "maxiter": 80}, {}])
    if g.chance(0.3):
        kw["self_cpa_z0"] = g.arr(g.cplx(z.shape, 0.1) - (0.15j if g.chance(0.7) else 0))
    if g.chance(0.2) and kw.get("method") not in ("df-sane",):
        cb = g.probe(lambda x, f: None, "callback")
        kw["callback"] = cb
        probes = [pr, cb]
    if g.chance(0.2):
        e = np.broadcast_to(e, (z.size, e.size)) + 0.05 * g.real((z.size, 1))
    return Call(gt.cpa.solve_root, g.arr(z), g.arr(e), g.arr(c) if g.chance(0.6) else g.seq(c), pr, probes=probes,
                meta={"kind": "cpa", "D": D}, **kw)


@op("cpa.solve_fxdocc_root", "cb", "solver", "slow", weight=1.2)
def _(g):
    n = g.s.choice([10, 16])
    beta = float(g.pick(2, 3, 4, 12))
    iws = 1j * np.pi / beta * (2 * np.arange(n) + 1)
    nc = g.num(1, 3)
    e = g.real((nc,), -0.3, 0.3) * g.pick(1, 3, 4)
    c = g.real((nc,), 0.3, 1)
    c = c / c.sum()
    pr = g.probe(hilbert(g, 1.0, g.pick("own", "bethe")), "hilbert_trafo")
    kw, probes = {}, [pr]
    if g.chance(0.4):
        kw["mu0"] = g.param(float(g.pick(0.1, -0.2)))
    if g.chance(0.3):
        kw["n_fit"] = 1
    if g.chance(0.3):
        kw["restricted"] = False
    if g.chance(0.3):
        kw["method"] = g.pick("krylov", "anderson", "hybr", "krylov")
    if kw.get("method") != "hybr":
        kw["options"] = g.s.choice([{"maxiter": 60}, {"maxiter": 60, "fatol": 1e-10}, {"maxiter": 60, "fatol": 1e-8}])
    if g.chance(0.2):
        kw["self_cpa_iw0"] = g.arr(np.full(iws.shape, (e * c).sum() - 0.02j))
    if g.chance(0.2) and kw.get("method", "krylov") in ("krylov", "anderson"):
        cb = g.probe(lambda x, f: None, "callback")
        kw["callback"] = cb
        probes = [pr, cb]
    return Call(gt.cpa.solve_fxdocc_root, g.arr(iws), g.arr(e), g.arr(c) if g.chance(0.6) else g.seq(c), pr, beta=g.param(beta),
                occ=round(g.scalar(0.3, 0.7), 3), probes=probes, meta={"kind": "fxdocc"}, **kw)


# ================================================================== beb
def beb_data(g, n=None):
    n = n or g.num(1, 3)
    nc = g.num(1, 3)
    z = g.real((n,), -0.8, 0.8) + 1j * g.real((n,), 0.4, 0.9)
    e = g.real((nc,), -0.3, 0.3) * g.pick(1, 3)
    c = g.real((nc,), 0.3, 1)
    c = c / c.sum()
    k = g.pick("full", "full", "rank1")
    if k == "rank1":
        t = np.ones((nc, nc))
    else:
        t = np.eye(nc) + 0.2 * her(g, nc).real
    t = 0.5 * (t + t.T)
    return z, e, c, t


@op("beb.gf_loc_z", "cb", weight=1.2)
def _(g):
    z, e, c, t = beb_data(g)
    pr = g.probe(hilbert(g), "hilbert_trafo")
    nc = e.size
    s = g.cplx((z.size, nc, nc), 0.1)
    s = s + np.swapaxes(s, -1, -2) - 0.5j * np.eye(nc)
    kw = {}
    if g.chance(0.5):
        kw["diag"] = g.pick(True, False)
    if g.chance(0.3):
        kw["rcond"] = 1e-10
    return Call(gt.beb.gf_loc_z, g.arr(z), g.arr(s), g.arr(t), pr, probes=[pr], **kw)


for _n in ("self_root_eq", "restrict_self_root_eq"):
    @op(f"beb.{_n}", "cb", weight=1.2)
    def _(g, _n=_n):
        z, e, c, t = beb_data(g)
        pr = g.probe(hilbert(g), "hilbert_trafo")
        nc = e.size
        s = g.cplx((z.size, nc, nc), 0.1)
        s = s + np.swapaxes(s, -1, -2) - (0.5j if g.chance(0.5) else 0) * np.eye(nc)
        eig, u = np.linalg.eigh(t)
        dec = gt.beb.SpecDec(g.arr(u), g.arr(eig), g.arr(u.T.conj().copy()))
        if g.chance(0.5):
            dec = dec.truncate()
        return Call(path(f"beb.{_n}"), g.arr(s), g.arr(z), g.arr(e), g.arr(c), dec, pr, probes=[pr])


@op("beb.SpecDec", weight=0.8)
def _(g):
    nc = g.num(1, 4)
    t = np.ones((nc, nc)) if g.chance(0.4) else her(g, nc)
    eig, u = np.linalg.eigh(t)
    dec = gt.beb.SpecDec(g.arr(u), g.arr(eig), g.arr(u.T.conj().copy()))
    rc = g.s.choice([None, 1e-10])
    return Call(lambda d: (d.truncate(rc), d.is_trunacted, d.partition(), d.partition(return_sqrts=True), d.s, d.reconstruct()), dec)


@op("beb.solve_root", "cb", "solver", weight=1.8)
def _(g):
    z, e, c, t = beb_data(g, n=g.num(1, 2))
    pr = g.probe(hilbert(g, 1.0), "hilbert_trafo")
    kw, probes = {}, [pr]
    if g.chance(0.3):
        kw["restricted"] = g.pick(True, False)
    if g.chance(0.25):
        kw["method"] = g.pick("krylov", "anderson", "broyden1")
    if g.chance(0.3):
        kw["tol"] = g.pick(1e-6, 1e-9)
    if g.chance(0.3):
        kw["options"] = g.s.choice([{"fatol": 1e-8}, {"maxiter": 60}, {"fatol": 1e-7, "maxiter": 50}, {}])
    if g.chance(0.25):
        nc = e.size
        kw["self_beb_z0"] = g.arr(np.broadcast_to(g.pick(-0.1j, -0.1j, 0.1j) * np.eye(nc), (z.size, nc, nc)) + 0.05 * g.real((nc, nc)))
    if g.chance(0.2):
        cb = g.probe(lambda x, f: None, "callback")
        kw["callback"] = cb
        probes = [pr, cb]
    return Call(gt.beb.solve_root, g.arr(z), g.arr(e), g.arr(c), g.arr(t), pr, probes=probes, meta={"kind": "beb"}, **kw)


# ================================================================== calls that must be refused
# Budgets that run out, inconsistent sizes, unknown options: every way the library itself raises, other than by assertions.
@op("refused.solvers", "cb", "solver", weight=1.5)
def _(g):
    kind = g.pick("cpa", "cpa", "beb", "fxdocc", "mu_budget", "mu_bracket", "mu_method")
    if kind.startswith("mu"):
        if kind == "mu_bracket":
            pr = g.probe(lambda mu: 0.5 + 0.1 * np.arctan(mu), "occ_root")
            kw = {}
        else:
            pr = g.probe(occ_function(g), "occ_root")
            kw = {"maxiter": g.num(1, 2), "method": g.pick("brentq", "bisect", "ridder")} if kind == "mu_budget" else {"method": "simplex"}
        return Call(gt.chemical_potential, pr, probes=[pr], **kw)
    if kind == "beb":
        z, e, c, t = beb_data(g, n=1)
        pr = g.probe(hilbert(g, 1.0), "hilbert_trafo")
        kw = {"options": {"maxiter": 1}, "restricted": g.pick(True, False), "method": g.pick("krylov", "anderson", "broyden1")}
        return Call(gt.beb.solve_root, g.arr(z), g.arr(e), g.arr(c), g.arr(t), pr, probes=[pr], **kw)
    pr = g.probe(hilbert(g, 1.0), "hilbert_trafo")
    z, e, c = cpa_data(g)
    kw = {"restricted": g.pick(True, False), "method": g.pick("anderson", "krylov", "broyden2", "df-sane")}
    kw["options"] = {"maxfev": 1} if kw["method"] == "df-sane" else {"maxiter": g.num(1, 2)}
    if kind == "fxdocc":
        iws = 1j * np.pi / 4 * (2 * np.arange(10) + 1)
        return Call(gt.cpa.solve_fxdocc_root, g.arr(iws), g.arr(e), g.arr(c), pr, beta=4.0, occ=0.45, probes=[pr], **kw)
    return Call(gt.cpa.solve_root, g.arr(z), g.arr(e), g.arr(c), pr, probes=[pr], **kw)


@op("refused.fourier", weight=1.2)
def _(g):
    F = gt.fourier
    kind = g.pick("tt", "tt", "quad", "quad", "order", "poles_z", "poles_tau", "num", "sizes")
    tt, gf_t, z = tt_data(g, n=16)
    z = z + 0.1j
    f = g.s.choice([F.tt2z_simps, F.tt2z_pade, F.tt2z_herm2, F.tt2z_lpz])
    if kind == "tt":
        return Call(f, g.arr(tt**2), g.arr(gf_t), g.arr(z))
    if kind == "quad":
        return Call(g.s.choice([F.tt2z_pade, F.tt2z_herm2, F.tt2z_lpz]), g.arr(tt), g.arr(gf_t), g.arr(z), quad=g.pick("filon", "romberg"))
    if kind == "order":
        return Call(gt.linearprediction.pcoeff_covar, g.arr(gf_t), g.pick(16, 17, 40))
    if kind == "num":
        pc = gt.linearprediction.pcoeff_covar(gf_t.reshape(-1)[:16].copy(), 4)[0]
        return Call(gt.linearprediction.predict, g.arr(gf_t.reshape(-1)[:16]), pc, num=-g.num(1, 5))
    if kind == "sizes":
        return Call(F.tt2z_trapz, g.arr(tt), g.arr(gf_t[..., :-2]), g.arr(z))
    iws, gf, mom, beta, tau, gft = gf_iw_data(g, n=16, lead=(), beta=5.0)
    n = g.num(1, 2)
    if kind == "poles_z":
        return Call(gt.basis.PoleGf.from_z, g.arr(iws), g.arr(gf), n_pole=n, moments=g.arr(mom[:n + 1]))
    return Call(gt.basis.PoleGf.from_tau, g.arr(gft), n_pole=n, beta=beta, moments=g.arr(mom[:n]), occ=True)


@op("refused.pade", "cb", weight=1.2)
def _(g):
    P, H = gt.pade, gt.hermpade
    kind = g.pick("type", "type", "none", "none", "nan", "filter", "kind", "degree", "n_poles", "hermpade", "hermpade", "moments", "no_solution")
    if kind == "kind":
        return Call(g.s.choice([P.KindGf, P.KindSelf]), *g.pick((0, 5), (7, 7), (9, 3)))
    if kind == "hermpade":
        an = g.real((g.num(3, 6),))
        f = g.s.choice([H.pade, H.pader, H.pade_lstsq, H.hermite2, H.hermite2_lstsq, H.Hermite2.from_taylor])
        return Call(f, g.arr(an), 4, 4) if f in (H.pade, H.pader, H.pade_lstsq) else Call(f, g.arr(an), 3, 3, 3)
    iws, gf, mom, beta, _tau, _gft = gf_iw_data(g, n=16, lead=(), beta=5.0)
    if kind == "degree":
        return Call(gt.polepade.continuation, g.arr(iws), g.arr(gf), degree=g.num(1, 2))
    if kind == "n_poles":
        return Call(gt.polepade.number_poles, g.arr(iws), g.arr(gf), degree=-1, n_poles0=g.num(9, 12))
    if kind == "no_solution":
        return Call(gt.polepade.number_poles, g.arr(iws), g.arr(g.cplx(16)), degree=-1)
    if kind == "moments":
        return Call(gt.polepade.residues_ols, g.arr(iws), g.arr(gf), g.arr(g.real((2,))), moments=g.arr(mom[:3]))
    ks = P.KindGf(4, 12)
    z = g.real((5,), -1, 1) + 0.2j
    coeff = P.coefficients(iws, fct_z=gf)
    if kind == "nan":
        gf = gf.copy()
        gf[g.num(0, 3)] = np.nan
        return Call(P.averaged, g.arr(z), g.arr(iws), fct_z=g.arr(gf), kind=ks)
    if kind == "filter":
        pr = g.probe(lambda pades: np.zeros(len(list(pades)), dtype=bool), "filter_valid")
        fs = g.seq([P.FilterNegImag(1e-8), pr]) if g.chance(0.5) else pr
        return Call(P.averaged, g.arr(z), g.arr(iws), fct_z=g.arr(gf), filter_valid=fs, kind=ks, probes=[pr])
    bad = np.ones(len(ks), dtype=int) if kind == "type" else np.zeros(len(ks), dtype=bool)
    if g.chance(0.5):
        return Call(P.Averager, g.arr(iws), g.arr(coeff), valid_pades=bad, kind=ks)
    pr = g.probe(lambda _z, f: f.imag, "mod_fct")
    return Call(P.Mod_Averager, g.arr(iws), g.arr(coeff), pr, valid_pades=bad, kind=ks, probes=[pr])


@op("refused.others", weight=1.2)
def _(g):
    L = gt.linalg
    kind = g.pick("dimer", "boson", "moments", "lstsq", "lstsq_singular", "hermitian", "symmetric", "orth", "square")
    if kind == "dimer":
        return Call(gt.hubbard_dimer_gf_z, g.arr(g.cplx(3)), 0.5, 1.5, kind=g.pick("*", "x", ""))
    if kind == "boson":
        return Call(gt.pole_gf_tau_b, g.arr(np.linspace(0, 2.0, 5)), g.arr(g.real((3,), -1, -0.1)), g.arr(g.real((3,), 0.1, 1)), g.param(2.0))
    if kind == "moments":
        lat = g.s.choice(["bcc", "bethe", "fcc", "honeycomb", "kagome", "lieb", "onedim", "sc", "square", "triangular"])
        return Call(path(f"lattice.{lat}.dos_moment"), g.pick(50, 98, 1000), half_bandwidth=1.5)
    if kind == "lstsq":
        return Call(L.lstsq_ec, g.arr(g.real((5, 3))), g.arr(g.real((5,))), g.arr(np.zeros((0, 3))), g.arr(g.real((2,))))
    if kind == "lstsq_singular":
        c = np.array([[1.0, 0.5, 0.0], [1.0, 0.5, 0.0]])
        return Call(L.lstsq_ec, g.arr(g.real((5, 3))), g.arr(g.real((5,))), g.arr(c), g.arr(np.array([1.0, -1.0])))
    if kind == "orth":
        return Call(L.orth_compl, g.arr(g.real((2, 4))))
    m = g.cplx((3, 3)) + np.triu(np.ones((3, 3)))
    if kind == "square":
        return Call(g.s.choice([gt.matrix.decompose_mat, gt.matrix.decompose_her]), g.arr(m[:, :2]))
    return Call(gt.matrix.decompose_her if kind == "hermitian" else gt.matrix.decompose_sym, g.arr(m))
