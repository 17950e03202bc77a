"""Snapshot of the process-wide state a library must leave alone."""
import atexit
import decimal
import gc
import locale
import logging
import os
import random
import signal
import sys
import threading
import warnings

import mpmath
import numpy as np
import scipy.fft
import scipy.special

from . import cases


# foreign modules whose functions nobody may exchange
FOREIGN = ("numpy", "numpy.linalg", "numpy.fft", "numpy.random", "numpy.polynomial", "scipy.linalg", "scipy.optimize", "scipy.special", "scipy.fft",
           "mpmath", "math", "cmath", "warnings", "logging", "builtins", "itertools", "functools", "numexpr", "time", "random", "copy", "operator")


def _logger(lg):
    return (lg.level, lg.propagate, lg.disabled, tuple(map(id, lg.handlers)), tuple(map(id, lg.filters)))


def snapshot(gt):
    s = {}
    s["warning filters"] = repr([tuple(getattr(p, "pattern", p) for p in f) for f in warnings.filters])
    s["warnings.showwarning"] = id(warnings.showwarning)
    s["numpy error state"] = repr((sorted(np.geterr().items()), id(np.geterrcall())))
    po = np.get_printoptions()
    s["numpy print options"] = repr(sorted((k, repr(v)) for k, v in po.items()))
    s["numpy buffer size"] = np.getbufsize()
    st = np.random.get_state()
    s["numpy random state"] = cases.digest([list(st)])
    s["random state"] = hash(random.getstate())
    s["scipy.special error state"] = repr(sorted(scipy.special.geterr().items()))
    mp = mpmath.mp
    s["mpmath precision"] = (mp.prec, mp.dps, mp.pretty, mp.trap_complex, mpmath.iv.prec)
    s["decimal context"] = repr(decimal.getcontext())
    lg = {"": _logger(logging.root), "disable": logging.root.manager.disable, "raise": logging.raiseExceptions,
          "class": id(logging.getLoggerClass()), "factory": id(logging.getLogRecordFactory())}
    for name, obj in sorted(logging.root.manager.loggerDict.items()):
        if name.split(".")[0] in ("gftool", "numpy", "scipy", "py", "numexpr") and isinstance(obj, logging.Logger):
            lg[name] = _logger(obj)
    s["logging configuration"] = repr(lg)
    s["environment"] = cases.hash_(repr(sorted(os.environ.items())) + os.getcwd())
    s["locale"] = locale.setlocale(locale.LC_ALL)
    s["signal handlers"] = repr([(n, id(signal.getsignal(n))) for n in (signal.SIGINT, signal.SIGTERM, signal.SIGFPE, signal.SIGALRM)])
    s["interpreter settings"] = repr((sys.getrecursionlimit(), sys.getswitchinterval(), gc.isenabled(), gc.get_threshold(),
                                      id(sys.excepthook), id(sys.displayhook), id(sys.stdout), id(sys.stderr), sys.path,
                                      sys.get_int_max_str_digits()))
    ne = sys.modules.get("numexpr")
    if ne is not None:
        s["numexpr threads"] = getattr(ne, "nthreads", None)
    mpl = sys.modules.get("matplotlib")
    if mpl is not None and "matplotlib.pyplot" in sys.modules:
        s["matplotlib rcParams"] = cases.hash_(repr(sorted((k, repr(v)) for k, v in mpl.rcParams.items())))
    s["scipy.fft workers"] = scipy.fft.get_workers()
    mask = os.umask(0o22)
    os.umask(mask)
    s["file creation mask"] = mask
    s["threads"] = sorted(t.name for t in threading.enumerate() if t is not threading.current_thread())
    s["atexit and gc callbacks"] = (atexit._ncallbacks(), len(gc.callbacks))
    s["trace functions"] = (id(sys.gettrace()), id(sys.getprofile()), id(threading.gettrace()), id(threading.getprofile()))
    try:
        s["open files"] = len(os.listdir("/proc/self/fd"))
    except OSError:
        pass
    for m in FOREIGN:
        if m in sys.modules:
            s["attributes of " + m] = {k: id(v) for k, v in vars(sys.modules[m]).items() if not k.startswith("__")}
    for name, val in tables():
        s["table " + name] = cases.digest(val)
    return s


_TABLES = None


def tables():
    """Published constant tables of the package (public, numbers only, present at import)."""
    global _TABLES
    if _TABLES is None:
        _TABLES = []
        for mname, mod in sorted(sys.modules.items()):
            if mname.split(".")[0] != "gftool" or mod is None or ".tests" in mname:
                continue
            for k, v in sorted(vars(mod).items()):
                if k.startswith("_"):
                    continue
                if isinstance(v, np.ndarray) or (isinstance(v, (dict, list, tuple, set, frozenset)) and len(v) and _numbers(v)):
                    _TABLES.append((f"{mname}.{k}", v))
    return _TABLES


def _numbers(v):
    items = list(v.keys()) + list(v.values()) if isinstance(v, dict) else list(v)
    return all(isinstance(x, (int, float, complex, np.number, np.ndarray)) or (isinstance(x, (list, tuple)) and _numbers(x)) for x in items)


def changed(a, b):
    out = []
    for k in a:
        if isinstance(a[k], dict):        # attributes may be added (lazy imports), not replaced
            out += [f"{k.removeprefix('attributes of ')}.{n}" for n in a[k] if n in b[k] and a[k][n] != b[k][n]]
    a, b = ({k: v for k, v in x.items() if not isinstance(v, dict)} for x in (a, b))
    return out + [k for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k) and (k in a and k in b)]


def disturb(rng):
    """An unusual but legal ambient configuration, as an application would set it up."""
    def err(mode):
        return lambda: np.seterr(all=mode)
    opts = {
        "err-raise": err("raise"), "err-ignore": err("ignore"), "err-mix": lambda: np.seterr(divide="raise", over="ignore", invalid="warn"),
        "warn-error": lambda: warnings.simplefilter("error"), "warn-ignore": lambda: warnings.simplefilter("ignore"),
        "print": lambda: np.set_printoptions(precision=3, threshold=5, suppress=True),
        "mp": lambda: setattr(mpmath.mp, "dps", 23), "seed": lambda: (np.random.seed(5), random.seed(5)),
        "special": lambda: scipy.special.seterr(singular="warn"),
        "log": lambda: logging.getLogger("gftool").setLevel(logging.DEBUG),
    }
    names = rng if isinstance(rng, list) else rng.sample(sorted(opts), rng.randint(1, 3))
    for n in names:
        opts[n]()
    return names


AMBIENTS = ["err-raise", "err-ignore", "err-mix", "warn-error", "warn-ignore", "print", "mp", "seed", "special", "log"]


_SAVED = {}


def save():
    """Remember the state of the fresh process."""
    _SAVED.update(err=np.geterr(), call=np.geterrcall(), po=np.get_printoptions(), sp=scipy.special.geterr(), buf=np.getbufsize(),
                  prec=mpmath.mp.prec, show=warnings.showwarning, np_rng=np.random.get_state(), rng=random.getstate(),
                  root=(logging.root.level, list(logging.root.handlers)), last=logging.lastResort,
                  loggers={n: (lg.level, lg.disabled, lg.propagate, list(lg.handlers), list(lg.filters))
                           for n, lg in logging.root.manager.loggerDict.items() if isinstance(lg, logging.Logger)})


def reset():
    """Back to the state of the fresh process (between runs that share one process)."""
    np.seterr(**_SAVED["err"])
    np.seterrcall(_SAVED["call"])
    po = dict(_SAVED["po"])
    po.pop("override_repr", None)
    np.set_printoptions(**po)
    np.setbufsize(_SAVED["buf"])
    scipy.special.seterr(**_SAVED["sp"])
    mpmath.mp.prec = _SAVED["prec"]
    warnings.showwarning = _SAVED["show"]
    np.random.set_state(_SAVED["np_rng"])
    random.setstate(_SAVED["rng"])
    logging.disable(logging.NOTSET)
    logging.root.setLevel(_SAVED["root"][0])
    logging.root.handlers[:] = _SAVED["root"][1]
    for n, (level, disabled, propagate, handlers, filters) in _SAVED["loggers"].items():
        lg = logging.getLogger(n)
        lg.disabled, lg.propagate = disabled, propagate
        lg.handlers[:], lg.filters[:] = handlers, filters
        lg.setLevel(level)
