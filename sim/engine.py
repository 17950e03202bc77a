"""Fork server, reference ("alone") runs, worker pool, minimisation."""
import gc
import multiprocessing
import os
import pickle
import random
import select
import signal
import struct
import sys
import time
import traceback
import warnings
from collections import Counter

import numpy as np

from . import alloc, boot, cases, catalog, kernel, procstate

gt = None
CODE_ID = {}
LINE = {}
CHILD_TIMEOUT = 60.0


def start(variant=""):
    """Make this process the zygote: everything imported, nothing called."""
    global gt
    gt = boot.load(variant)
    alloc.load()
    alloc.fill("zero")
    catalog.bind(gt)
    catalog.register_lattices()
    procstate.save()
    for i, c in enumerate(boot.CODES):
        CODE_ID[c] = i
        m = {}
        for a, b, ln in c.co_lines():
            for o in range(a, b, 2):
                m[o] = ln
        LINE[c] = m
    return gt


def where(code, offset):
    return f"{code.co_filename[len(boot.REPO) + 1:]}:{LINE[code].get(offset)}"


# ------------------------------------------------------------------ children
class ChildProblem(Exception):
    def __init__(self, kind, text):
        super().__init__(f"{kind}: {text}")
        self.kind, self.text = kind, text


DIRECT = False           # True in a process that runs a whole unit by itself (screening)


def in_child(fn, *args, timeout=None):
    """Run fn(*args) in a fork of this pristine process and return its result."""
    if DIRECT:
        procstate.reset()
        alloc.fill("zero")
        alloc.fail(-1)
        try:
            return fn(*args)
        except cases.BudgetExceeded as e:
            raise ChildProblem("stall", str(e)) from e
        except Exception as e:              # noqa: BLE001
            raise ChildProblem("error", traceback.format_exc()) from e
        finally:
            alloc.fail(-1)
            alloc.fill("zero")
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)                # LAPACK reports illegal values on its own
            os.dup2(null, 2)
            try:
                out = ("ok", fn(*args))
            except cases.BudgetExceeded as e:
                out = ("stall", str(e))
            except BaseException:           # noqa: BLE001
                out = ("error", traceback.format_exc())
            try:
                blob = pickle.dumps(out, protocol=4)
            except Exception:               # noqa: BLE001
                blob = pickle.dumps(("error", traceback.format_exc()))
            with os.fdopen(w, "wb") as f:
                f.write(blob)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    end = time.monotonic() + (timeout or CHILD_TIMEOUT)
    while True:
        left = end - time.monotonic()
        if left <= 0 or not select.select([r], [], [], left)[0]:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            raise ChildProblem("stall", "no result in time")
        b = os.read(r, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        raise ChildProblem("crash", f"signal {os.WTERMSIG(status)}")
    if not chunks:
        raise ChildProblem("crash", f"exit status {status}")
    kind, val = pickle.loads(b"".join(chunks))
    if kind in ("error", "stall"):
        raise ChildProblem(kind, val)
    return val


WARNED = []
UNRAISABLE = []        # exceptions Python could not deliver (raised in finalisers)


def quiet(record=True):
    """Deterministic warning setup of a simulated process."""
    WARNED.clear()
    UNRAISABLE.clear()
    sys.unraisablehook = lambda u: UNRAISABLE.append(u.exc_value)
    warnings.resetwarnings()
    warnings.simplefilter("always")

    def show(message, category, filename, lineno, file=None, line=None):
        if len(WARNED) < 10000:
            WARNED.append(f"{category.__name__}: {message}")
    warnings.showwarning = show
    import logging
    logging.lastResort = logging.NullHandler()


def direct(fn, *args):
    """For a child: fn(*args) with all its simulated runs in this one process."""
    global DIRECT
    DIRECT = True
    gc.freeze()
    return fn(*args)


# ------------------------------------------------------------------ reference runs
class Recorder:
    """Index of first/last event per instruction, for placing switches and faults."""

    def __init__(self):
        self.first, self.last = {}, {}

    def __call__(self, t, n, code, offset):
        k = (code, offset)
        if k not in self.first:
            self.first[k] = n
        self.last[k] = n

    def points(self):
        out = []
        for (code, off), n in self.first.items():
            out.append((n, self.last[code, off], CODE_ID[code], off, LINE[code].get(off)))
        out.sort()
        return out


def _is_work(func):
    """Callees whose failure is a failing computation (not bookkeeping such as restoring state)."""
    mod = getattr(func, "__module__", None) or getattr(type(func), "__module__", "") or ""
    top = mod.split(".")[0]
    if isinstance(func, np.ufunc):
        return True
    if top not in ("numpy", "scipy", "mpmath", "numexpr"):
        return isinstance(func, cases.Probe)
    name = getattr(func, "__name__", "")
    if isinstance(func, type) and issubclass(func, (BaseException,)):
        return False
    if name.startswith(("set", "reset", "restore", "__exit__", "__enter__")):
        return False
    return not any(w in name.lower() for w in ("errstate", "seterr", "geterr", "errcall", "workdps", "workprec", "printoptions",
                                               "warning", "set_state", "seed"))


def _is_linalg(func):
    mod = getattr(func, "__module__", "") or ""
    return mod.startswith(("numpy.linalg", "scipy.linalg"))


LIMIT = 8_000_000        # instructions of the package in one call; the largest call of the catalog needs a tenth


def no_end(task, code, offset):
    raise cases.BudgetExceeded(f"no end after {task.n} steps")


def _golden(case, calls):
    quiet()
    call = catalog.build(case)
    rec = Recorder()
    t = kernel.Task(0, None)
    t.record = rec
    callees = []
    if calls:
        def on_call(t, code, offset, func):
            callees.append((len(callees) + 1, CODE_ID[code], offset, _is_work(func), _is_linalg(func),
                            getattr(func, "__name__", type(func).__name__)))
        t.on_call = on_call
    kernel.monitor(boot.CODES, call=calls)
    WARNED.clear()
    alloc.fail(-1)
    t.plan([(LIMIT, no_end)])
    with kernel.Solo(t):
        out = cases.outcome(call)
    kernel.unmonitor(boot.CODES)
    n_alloc = alloc.count()
    return {"out": out, "n": t.n, "points": rec.points(), "cb": [p.count for p in call.probes], "allocs": n_alloc,
            "warn": list(WARNED), "calls": callees, "mp": call.mp}


class Golden:
    """Cache of reference runs: each case alone in a pristine process."""

    def __init__(self):
        self.cache = {}
        self.runs = 0

    def __call__(self, case, calls=False):
        key = (repr(case), calls)
        if key not in self.cache:
            if len(self.cache) > 400:
                self.cache.clear()
            self.runs += 1
            self.cache[key] = in_child(_golden, tuple(case), calls)
        return self.cache[key]


GOLDEN = Golden()


# ------------------------------------------------------------------ workload selection
def _scan(name, seeds):
    """Instruction coverage of many structures of one op."""
    quiet()
    out = []
    kernel.monitor(boot.CODES)
    budget = time.process_time() + 60.0
    for s in seeds:
        try:
            call = catalog.build((name, s, 0, 0))
        except Exception:            # noqa: BLE001  (a broken tree may fail while preparing inputs)
            out.append((s, frozenset(), "exc", 0))
            continue
        cov = set()
        t = kernel.Task(0, None)
        t.record = lambda t, n, code, off, cov=cov: cov.add((CODE_ID[code], off))
        t.plan([(LIMIT, no_end)])
        try:
            with kernel.Solo(t):
                o = cases.outcome(call)
        except cases.BudgetExceeded:
            o = ("exc", "no end")
        out.append((s, frozenset(cov), o[0] if o[0] == "ret" else o[1], t.n))
        if time.process_time() > budget:
            break
    return out


def structures(name, k, rng, pool=40):
    """Choose k structure seeds of an op: first those that reach new code, then random ones."""
    tags = catalog.OPS[name][2]
    if "slow" in tags:
        pool = min(pool, 10)
    elif "solver" in tags:
        pool = min(pool, 24)
    seeds = [rng.randrange(1 << 20) for _ in range(max(pool, k))]
    scan = in_child(_scan, name, seeds)
    seen, chosen = set(), []
    for s, cov, res, n in sorted(scan, key=lambda x: -len(x[1])):
        if len(cov - seen) > 0:
            chosen.append(s)
            seen |= cov
    # a structure that returns a value is more telling than one that raises
    rest = [s for s, cov, res, n in scan if s not in chosen]
    rest.sort(key=lambda s: 0 if next(x for x in scan if x[0] == s)[2] == "ret" else 1)
    chosen = (chosen + rest)[:max(k, min(len(chosen), 2 * k))]
    return chosen, seen


# ------------------------------------------------------------------ pool
def _work(job):
    fn, unit = job
    t0 = time.process_time()
    try:
        res = fn(unit)
        res["unit"] = unit
    except ChildProblem as e:
        res = {"problem": (e.kind, e.text), "unit": unit}
    except Exception:                 # noqa: BLE001
        res = {"problem": ("error", traceback.format_exc()), "unit": unit}
    res["cpu"] = time.process_time() - t0
    return res


def pool_map(fn, units, workers=None, deadline=None):
    """Ordered results of fn(unit) over forked workers."""
    workers = workers or int(os.environ.get("GFSIM_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    if workers == 1:
        for u in units:
            yield _work((fn, u))
        return
    ctx = multiprocessing.get_context("fork")
    pool = ctx.Pool(workers)
    try:
        it = pool.imap(_work, [(fn, u) for u in units], chunksize=1)
        for _ in units:
            left = None if deadline is None else max(1.0, deadline - time.monotonic())
            try:
                yield it.next(left)
            except multiprocessing.TimeoutError:
                yield {"cap": True, "unit": None}
                return
    finally:
        pool.terminate()
        pool.join()


def rng_for(*parts):
    return random.Random("/".join(map(str, parts)))


def stable_hash(obj):
    return cases.hash_(repr(obj))


# ------------------------------------------------------------------ minimisation
def ddmin(items, fails, budget):
    """Smallest sub-list (greedy delta debugging) for which fails(list) holds."""
    items = list(items)
    n = 2
    while len(items) >= 1 and budget[0] > 0:
        size = max(1, len(items) // n)
        reduced = False
        for i in range(0, len(items), size):
            cand = items[:i] + items[i + size:]
            budget[0] -= 1
            if budget[0] <= 0:
                break
            if fails(cand):
                items, n, reduced = cand, max(2, n - 1), True
                break
        if not reduced:
            if size == 1:
                break
            n = min(len(items), n * 2)
    return items
