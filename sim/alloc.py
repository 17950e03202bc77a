"""Seam: numpy's data allocator (uninitialised memory, failing allocations)."""
import ctypes
import os
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(os.path.dirname(HERE), "build")
_LIB = os.path.join(BUILD, "libgfsim.so")
_SRC = os.path.join(HERE, "alloc.c")

FILLS = {"zero": 1, "ones": 2, "huge": 3, "bits": 4, "unit": 5, "snan": 6, "real": 7,
         "denorm": 8, "bytes1": 9, "inf": 10}

lib = None
_api = None
_capsule = None


def build(force=False):
    """Compile the allocator (atomically, so concurrent checks cannot collide)."""
    os.makedirs(BUILD, exist_ok=True)
    if not force and os.path.exists(_LIB) and os.path.getmtime(_LIB) >= os.path.getmtime(_SRC):
        return _LIB
    fd, tmp = tempfile.mkstemp(dir=BUILD, suffix=".so")
    os.close(fd)
    subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", tmp, _SRC], check=True)
    os.chmod(tmp, 0o755)
    os.replace(tmp, _LIB)
    return _LIB


def load():
    global lib, _api, _capsule
    if lib is not None:
        return
    import numpy as np
    build()
    lib = ctypes.CDLL(_LIB)
    lib.sim_handler.restype = ctypes.c_void_p
    lib.sim_mode.argtypes = [ctypes.c_int, ctypes.c_uint64]
    lib.sim_fail.argtypes = [ctypes.c_int64, ctypes.c_int64]
    for f in (lib.sim_allocs, lib.sim_failed, lib.sim_filled, lib.sim_live, lib.sim_live_bytes):
        f.restype = ctypes.c_int64
    getp = ctypes.pythonapi.PyCapsule_GetPointer
    getp.restype = ctypes.c_void_p
    getp.argtypes = [ctypes.py_object, ctypes.c_char_p]
    new = ctypes.pythonapi.PyCapsule_New
    new.restype = ctypes.py_object
    new.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]
    _api = ctypes.cast(getp(np._core._multiarray_umath._ARRAY_API, None), ctypes.POINTER(ctypes.c_void_p))
    _capsule = new(lib.sim_handler(), b"mem_handler", None)
    install()
    from numpy._core.multiarray import get_handler_name
    a = np.empty(8)
    if get_handler_name(a) != "gfsim":
        raise RuntimeError("allocator seam not installed")


def install():
    """Route numpy data allocations of the *current thread* through the simulator."""
    proto = ctypes.PYFUNCTYPE(ctypes.py_object, ctypes.py_object)
    proto(_api[304])(_capsule)


def fill(name, seed=0):
    lib.sim_mode(FILLS[name], seed & 0xFFFFFFFF)


def fail(after, length=1):
    """Let the allocations numbered after+1 .. after+length fail (after < 0: none); resets the counter."""
    lib.sim_fail(after, length)


def count():
    return int(lib.sim_allocs())


def failed():
    return int(lib.sim_failed())


def live():
    """(number, bytes) of the live array buffers."""
    return int(lib.sim_live()), int(lib.sim_live_bytes())
