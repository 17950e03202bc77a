"""Bring the code under test into the simulator.

The code is imported from /repo's working tree (``GFSIM_REPO`` overrides the
path while developing).  Third-party packages are imported first; only then are
the seams put in place, so that exactly the repository's own code runs through
them: every code object of the package is collected for ``sys.monitoring``, and
locks the package creates become simulated ones.
"""
import functools
import importlib.machinery
import os
import sys
import types

REPO = os.environ.get("GFSIM_REPO", "/repo")
CODES = []          # every code object of the package under test
PKG = os.path.join(REPO, "gftool") + os.sep

ENV = {
    "LC_ALL": "C.UTF-8", "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "NUMEXPR_NUM_THREADS": "1",
    "NUMEXPR_MAX_THREADS": "1", "OPENBLAS_CORETYPE": "Haswell", "MPLBACKEND": "agg",
}


def python():
    for p in ("/opt/venv/bin/python", sys.executable):
        if os.path.exists(p):
            return p
    raise RuntimeError("no python")


def _collect(code, out):
    out.append(code)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            _collect(c, out)


def load(variant=""):
    """Import the package; `variant` degrades the environment (see C11)."""
    for k, v in ENV.items():
        os.environ.setdefault(k, v)
    sys.dont_write_bytecode = True
    import logging                                      # noqa: F401
    import warnings
    import numpy as np
    import numpy.linalg, numpy.fft, numpy.polynomial    # noqa: F401,E401
    import scipy.linalg, scipy.optimize, scipy.special  # noqa: F401,E401
    import mpmath                                       # noqa: F401
    if "no_numexpr" in variant:
        sys.modules["numexpr"] = None
    else:
        try:
            import numexpr                              # noqa: F401
        except ImportError:
            pass
    if "no_mpl" in variant:
        for m in ("matplotlib", "matplotlib.pyplot"):
            sys.modules[m] = None
    if "no_quad" in variant:
        for n in ("float128", "complex256"):
            if hasattr(np, n):
                delattr(np, n)
        # the names are attributes set on the module's dict; make lookups fail as on such a platform
        np.__dict__.pop("float128", None)
        np.__dict__.pop("complex256", None)
    if "no_mpl" not in variant:
        try:
            import matplotlib.pyplot    # noqa: F401
            import matplotlib.figure    # noqa: F401
        except ImportError:
            pass
    lstsq = np.linalg.lstsq

    @functools.wraps(lstsq)
    def finite_lstsq(a, b, *args, **kwds):
        # LAPACK's gelsd may never return from non-finite data; the simulated one always refuses them
        if not (np.isfinite(a).all() and np.isfinite(b).all()):
            raise np.linalg.LinAlgError("SVD did not converge in Linear Least Squares")
        return lstsq(a, b, *args, **kwds)
    np.linalg.lstsq = finite_lstsq
    from . import kernel
    kernel.patch_locks()

    def get_code(self, fullname, _orig=importlib.machinery.SourceFileLoader.get_code):
        path = self.get_filename(fullname)
        if not path.startswith(PKG):
            return _orig(self, fullname)
        # always compile the working tree's source, never a stale .pyc
        code = self.source_to_code(self.get_data(path), path)
        _collect(code, CODES)
        return code

    importlib.machinery.SourceFileLoader.get_code = get_code
    sys.path.insert(0, REPO)
    if not os.path.exists(os.path.join(PKG, "_version.py")):
        ver = types.ModuleType("gftool._version")
        ver.__version__ = ver.version = "0+sim"
        sys.modules["gftool._version"] = ver
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        import gftool
        import gftool.pade, gftool.hermpade, gftool.basis, gftool.linalg  # noqa: F401,E401
        # any further module of the package (present or added later)
        import pkgutil
        for mod in pkgutil.walk_packages(gftool.__path__, "gftool."):
            if ".tests" in mod.name or mod.name.endswith("._version"):
                continue
            try:
                __import__(mod.name)
            except ImportError:
                pass
    if not gftool.__file__.startswith(PKG):
        raise RuntimeError(f"wrong gftool: {gftool.__file__}")
    return gftool
