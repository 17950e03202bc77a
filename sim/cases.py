"""Inputs, outcomes and their comparison.

A case is named by (op, structure seed, value seed, presentation seed): the
structure fixes shapes, dtypes and branches, the values fill them, the
presentation fixes how the same data is handed over (memory layout, scalar
types, read-only, how callbacks hand out their results).
"""
import dataclasses
import hashlib
import random
import re

import numpy as np
import mpmath

_HEX = re.compile(r"0x[0-9a-fA-F]+")
SPICE = False            # special values (nan, inf, zeros, duplicates, extremes) in the data of some structures


class Call:
    """What a case does: fn(*args, **kwargs); `extra` are further caller-owned objects."""

    def __init__(self, fn, *args, extra=(), probes=(), mp=False, meta=None, **kwargs):
        self.fn, self.args, self.kwargs = fn, list(args), dict(kwargs)
        self.extra, self.probes, self.mp = list(extra), list(probes), mp
        self.meta = meta or {}

    def __call__(self):
        return self.fn(*self.args, **self.kwargs)


class Probe:
    """A user callback: counts its invocations and does what the plan says at them."""

    def __init__(self, fn, name, handout="fresh"):
        self.fn, self.__name__, self.handout = fn, name, handout
        self.count = 0
        self.acts = {}               # invocation number -> callable(probe, args, kwargs) before the call
        self.post = {}               # invocation number -> callable(result) -> result
        self.memo = {}
        self.held = []               # (array, digest) handed out to the library
        self.max_count = None

    def __call__(self, *args, **kwargs):
        self.count += 1
        if self.max_count is not None and self.count > self.max_count:
            raise BudgetExceeded(f"{self.__name__} called {self.count} times")
        act = self.acts.get(self.count)
        if act is not None:
            act(self, args, kwargs)
        key = None
        if self.handout == "memo":
            key = digest([list(args), kwargs])
            if key in self.memo:
                return self.memo[key]
        res = self.fn(*args, **kwargs)
        post = self.post.get(self.count) or self.post.get("all")
        if post is not None:
            res = post(res)
        if self.handout == "readonly" and isinstance(res, np.ndarray):
            res = res.view()
            res.flags.writeable = False
        if key is not None:
            self.memo[key] = res
        if len(self.held) < 400 and isinstance(res, np.ndarray):
            self.held.append((res, digest([res])))
        return res

    def reset(self):
        self.count = 0
        self.acts, self.post, self.memo, self.held = {}, {}, {}, []


class BudgetExceeded(BaseException):
    pass


# ------------------------------------------------------------------ generation
_LAPACK = ("linalg", "matrix", "beb", "siam", "hermpade", "linearprediction", "polepade", "basis", "fourier", "density", "check_convergence")


class Gen:
    """pseed 0: plain C-contiguous data; > 0: seeded presentation; -1: everything read-only."""

    def __init__(self, op, sseed, vseed, pseed):
        self.s = random.Random(f"s/{op}/{sseed}")
        self.v = np.random.default_rng(abs(hash_(f"v/{op}/{sseed}/{vseed}")))
        self.p = random.Random(f"p/{op}/{sseed}/{pseed}")
        self.pseed = pseed
        self.x = random.Random(f"x/{op}/{sseed}")
        self.lapack = op.split(".")[0] in _LAPACK
        self.spiced = SPICE and not op.startswith(("cpa.solve", "beb.solve", "refused.solvers")) and self.x.random() < 0.22

    # -- structure
    def pick(self, *xs):
        return self.s.choice(xs)

    def chance(self, p):
        return self.s.random() < p

    def num(self, lo, hi):
        return self.s.randint(lo, hi)

    def size(self, lo, hi):
        """A length, now and then a large one."""
        return self.s.choice([40, 130, 300]) if self.s.random() < 0.05 else self.s.randint(lo, hi)

    def dim(self, lo, hi, *large):
        """A number of poles, an order, the size of a matrix; now and then a large one."""
        return self.s.choice(large or (3 * hi, 6 * hi, 9 * hi)) if self.s.random() < 0.07 else self.s.randint(lo, hi)

    def shape(self, big=0, min_ndim=0, empty=True):
        r = self.s.random()
        opts = [(), (1,), (2,), (3,), (5,), (8,), (2, 3), (3, 1), (1, 4), (2, 2, 3), (17,), (4, 4), (31,)]
        if empty:
            opts.append((0,))
        if r > 0.95:
            opts = [(64,), (130,), (300,), (1030,), (3, 70), (260, 2)]
        if big and r < 0.12:
            opts = [(big,), (big // 2,), (4, big // 4)]
        opts = [o for o in opts if len(o) >= min_ndim]
        return self.s.choice(opts)

    # -- values
    def real(self, shape=(), lo=-1.0, hi=1.0):
        return self.v.uniform(lo, hi, size=shape)

    def cplx(self, shape=(), r=1.0):
        return self.v.uniform(-r, r, size=shape) + 1j * self.v.uniform(-r, r, size=shape)

    def scalar(self, lo, hi):
        return float(self.v.uniform(lo, hi))

    # -- presentation
    def arr(self, x, ro=True, layouts=None):
        """Hand over array data in some memory layout."""
        x = np.asarray(x)
        if self.spiced and x.dtype.kind in "fc" and x.size and x.ndim:
            x = self.spice(x)
        if x.ndim == 0:
            return self.p.choice([x[()], np.array(x), x.item()]) if self.pseed > 0 else x[()]
        lay = self.p.choice(layouts or ["C", "C", "F", "strided", "neg", "ro", "sub", "C"]) if self.pseed > 0 else "C"
        if self.pseed < 0:
            lay = "ro"
        if lay == "F":
            y = np.asfortranarray(x).copy(order="F")
        elif lay == "strided":
            base = np.full((*x.shape[:-1], 2 * x.shape[-1] + 1), 7, dtype=x.dtype)
            y = base[..., 1::2]
            y[...] = x
        elif lay == "neg":
            y = x[..., ::-1].copy()[..., ::-1]
        elif lay == "sub":
            base = np.full((*x.shape[:-1], x.shape[-1] + 16), 7, dtype=x.dtype)
            y = base[..., 8:8 + x.shape[-1]]
            y[...] = x
        else:
            y = x.copy()
        if ro and lay == "ro":
            y.flags.writeable = False
        return y

    def spice(self, x):
        """Special values in some entries (where: structure, so all value seeds share the branches)."""
        if self.x.random() < 0.4:
            return x
        x = x.copy()
        flat = x.reshape(-1)
        kind = self.x.choice(["nan", "inf", "zero", "one", "dup", "extreme", "mixed", "allnan", "dup"])
        if self.lapack:              # LAPACK itself may never return from non-finite input
            kind = self.x.choice(["zero", "one", "dup"])
        vals = {"nan": [np.nan], "inf": [np.inf, -np.inf], "zero": [0.0, -0.0], "one": [1.0, -1.0], "extreme": [1e300, -1e300, 1e-300, 5e-324],
                "mixed": [np.nan, np.inf, 0.0, -np.inf, 1.0, 1e-300]}
        with np.errstate(all="ignore"):
            for _ in range(self.x.randint(1, 3)):
                i = self.x.randrange(flat.size)
                if kind == "dup":
                    flat[i] = flat[self.x.randrange(flat.size)]
                elif kind == "allnan":
                    flat[...] = np.nan
                else:
                    v = self.x.choice(vals[kind])
                    c = self.x.random()
                    flat[i] = complex(v, flat[i].imag) if x.dtype.kind == "c" and c < 0.3 else complex(flat[i].real, v) if x.dtype.kind == "c" and c < 0.5 else v
        return x

    def param(self, x):
        """A scalar parameter: the same number in various scalar types."""
        if self.pseed <= 0:
            return x
        c = ["py", "py", "np", "0d"]
        if float(x) == int(x):
            c += ["int", "int", "npint"]
        k = self.p.choice(c)
        return {"py": float, "np": np.float64, "0d": lambda v: np.array(float(v)),
                "int": lambda v: int(v), "npint": lambda v: np.int64(v)}[k](x)

    def seq(self, x):
        """A short sequence as list, tuple or array."""
        x = list(x)
        if self.pseed <= 0:
            return self.arr(np.array(x))
        return self.p.choice([lambda: np.array(x), lambda: tuple(x), lambda: list(x), lambda: self.arr(np.array(x))])()

    def probe(self, fn, name):
        h = self.p.choice(["fresh", "fresh", "memo", "readonly"]) if self.pseed > 0 else "fresh"
        if self.pseed < 0:
            h = "readonly"
        return Probe(fn, name, h)

    def rdtype(self):
        return self.s.choice([np.float64] * 5 + [np.float32, np.longdouble])

    def cdtype(self):
        return self.s.choice([np.complex128] * 5 + [np.complex64, np.clongdouble])


def hash_(text):
    return int.from_bytes(hashlib.blake2b(text.encode(), digest_size=8).digest(), "big")


# ------------------------------------------------------------------ frozen outcomes
def freeze(x, depth=0):
    """A comparable, picklable deep copy of a result."""
    if depth > 8:
        return ("deep",)
    if x is None or isinstance(x, (bool, int, str, bytes)):
        return ("py", type(x).__name__, x)
    if isinstance(x, (float, complex)) and not isinstance(x, np.generic):
        return ("num", type(x).__name__, np.array(x))
    if isinstance(x, np.generic):
        return ("np", type(x).__name__, np.array(x))
    if isinstance(x, np.ma.MaskedArray):
        return ("ma", freeze(x.data), freeze(np.ma.getmaskarray(x)))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("objarr", x.shape, tuple(freeze(e, depth + 1) for e in x.ravel()))
        return ("arr", type(x).__name__, np.array(x, copy=True, order="C"))
    if isinstance(x, (mpmath.mpf, mpmath.mpc)):
        return ("mp", type(x).__name__, repr(x._mpf_ if isinstance(x, mpmath.mpf) else x._mpc_))
    if isinstance(x, np.polynomial.polynomial.Polynomial):
        return ("poly", freeze(x.coef), freeze(x.domain), freeze(x.window))
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        return ("obj", type(x).__name__, tuple(freeze(getattr(x, f.name), depth + 1) for f in dataclasses.fields(x)))
    if isinstance(x, tuple):
        return ("tuple", type(x).__name__, tuple(freeze(e, depth + 1) for e in x))
    if isinstance(x, list):
        return ("list", "list", tuple(freeze(e, depth + 1) for e in x))
    if isinstance(x, dict):
        return ("dict", "dict", tuple((repr(k), freeze(v, depth + 1)) for k, v in x.items()))
    if isinstance(x, (range, slice)):
        return ("py", type(x).__name__, repr(x))
    if type(x).__module__.split(".")[0] == "gftool" and hasattr(x, "__dict__") and not isinstance(x, type):
        return ("obj", type(x).__name__, tuple((k, freeze(v, depth + 1)) for k, v in sorted(vars(x).items())))
    return ("other", type(x).__name__)


def same(a, b, rtol=0.0):
    """None if the frozen outcomes agree, else a short description of the difference.

    rtol = 0 demands identical bits (NaN equals NaN); otherwise arrays are compared
    relative to their largest finite entry.
    """
    if type(a) is not type(b):
        return f"{_short(a)} != {_short(b)}"
    if isinstance(a, tuple):
        if len(a) != len(b):
            return f"{_short(a)} != {_short(b)}"
        for x, y in zip(a, b):
            d = same(x, y, rtol)
            if d:
                return d
        return None
    if isinstance(a, np.ndarray):
        if a.shape != b.shape or a.dtype != b.dtype:
            return f"array {a.dtype}{a.shape} != {b.dtype}{b.shape}"
        if a.size == 0 or bits(a) == bits(b):
            return None
        if a.dtype.kind not in "fc":
            return None if np.array_equal(a, b) else f"{_short(a)} != {_short(b)}"
        if rtol == 0.0:
            ok = (a == b) | ((a != a) & (b != b))
            return None if ok.all() else f"{_short(a)} != {_short(b)}"
        return close(a, b, rtol)
    return None if a == b else f"{_short(a)} != {_short(b)}"


def close(a, b, rtol):
    fa, fb = np.isfinite(a), np.isfinite(b)
    if (fa != fb).any():
        return f"finite at different places: {_short(a)} != {_short(b)}"
    if not fa.any():
        return None
    scale = max(np.abs(a[fa]).max(), np.abs(b[fb]).max())
    tiny = np.finfo(a.dtype).tiny
    err = np.abs(a[fa] - b[fb]).max()
    lim = max(rtol, 64 * np.finfo(a.dtype).eps) * scale + tiny
    return None if err <= lim else f"differ by {float(err):.3g} (scale {float(scale):.3g}): {_short(a)} != {_short(b)}"


def bits(a):
    if a.dtype in (np.dtype(np.longdouble), np.dtype(np.clongdouble)):
        return repr(a.ravel().tolist()) if a.size < 50 else a.astype(complex).tobytes()  # padding bytes are undefined
    return a.tobytes()


def _short(x):
    if isinstance(x, np.ndarray):
        return np.array2string(x.ravel()[:4], precision=6, threshold=4).replace("\n", " ")
    return repr(x)[:160]


def outcome(call):
    """('ret', frozen) or ('exc', type, message)."""
    try:
        r = call()
    except Exception as e:          # noqa: BLE001
        return exc_outcome(e)
    except BudgetExceeded:
        raise
    except BaseException as e:      # noqa: BLE001
        if type(e).__name__ == "Stuck":
            raise
        return exc_outcome(e)
    return ("ret", freeze(r))


def exc_outcome(e):
    return ("exc", f"{type(e).__module__}.{type(e).__qualname__}", _HEX.sub("0x", str(e)))


# ------------------------------------------------------------------ digests of caller data
def digest(obj):
    h = hashlib.blake2b(digest_size=16)
    _dig(obj, h, 0, set())
    return h.hexdigest()


def _dig(x, h, depth, seen):
    if depth > 9:
        return
    if isinstance(x, np.ndarray):
        root = x
        while isinstance(root.base, np.ndarray):
            root = root.base
        h.update(repr((x.shape, x.strides, str(x.dtype), x.flags.writeable)).encode())
        if root is not x:
            h.update(repr((root.shape, root.dtype)).encode())
        if root.dtype == object:
            for e in root.ravel():
                _dig(e, h, depth + 1, seen)
        else:
            h.update(_rawbytes(root))
        return
    if isinstance(x, np.generic):
        h.update(str(x.dtype).encode() + _rawbytes(np.asarray(x)))
        return
    if x is None or isinstance(x, (bool, int, float, complex, str, bytes, range, slice)):
        h.update(repr((type(x).__name__, x)).encode())
        return
    if isinstance(x, Probe):
        return
    if id(x) in seen:
        return
    seen.add(id(x))
    if isinstance(x, (list, tuple)):
        h.update(f"{type(x).__name__}{len(x)}".encode())
        for e in x:
            _dig(e, h, depth + 1, seen)
    elif isinstance(x, dict):
        h.update(f"dict{len(x)}".encode())
        for k, v in x.items():
            h.update(repr(k).encode())
            _dig(v, h, depth + 1, seen)
    elif isinstance(x, (set, frozenset)):
        h.update(repr(sorted(map(repr, x))).encode())
    elif isinstance(x, (mpmath.mpf, mpmath.mpc)):
        h.update(repr(x._mpf_ if hasattr(x, "_mpf_") else x._mpc_).encode())
    elif isinstance(x, np.polynomial.polynomial.Polynomial):
        for e in (x.coef, x.domain, x.window):
            _dig(e, h, depth + 1, seen)
    elif dataclasses.is_dataclass(x) and not isinstance(x, type):
        h.update(type(x).__name__.encode())
        for f in dataclasses.fields(x):
            _dig(getattr(x, f.name), h, depth + 1, seen)
    elif hasattr(x, "start") and hasattr(x, "stop"):
        h.update(repr((x.start, x.stop, getattr(x, "step", None))).encode())


def _rawbytes(a):
    if a.dtype in (np.dtype(np.longdouble), np.dtype(np.clongdouble)):
        v = np.ascontiguousarray(a).view(np.uint8).reshape(-1, 16)[:, :10]
        return v.tobytes()
    return a.tobytes()


def caller_data(call):
    """Everything the caller owns in this call."""
    return [call.args, call.kwargs, call.extra]


def arrays_in(x, out=None, depth=0):
    """All arrays reachable in a result or argument structure."""
    out = [] if out is None else out
    if depth > 8:
        return out
    if isinstance(x, np.ndarray):
        out.append(x)
        if x.dtype == object:
            for e in x.ravel():
                arrays_in(e, out, depth + 1)
    elif isinstance(x, (list, tuple)):
        for e in x:
            arrays_in(e, out, depth + 1)
    elif isinstance(x, dict):
        for e in x.values():
            arrays_in(e, out, depth + 1)
    elif isinstance(x, np.polynomial.polynomial.Polynomial):
        out.append(x.coef)
    elif dataclasses.is_dataclass(x) and not isinstance(x, type):
        for f in dataclasses.fields(x):
            arrays_in(getattr(x, f.name), out, depth + 1)
    return out
