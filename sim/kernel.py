"""The deterministic kernel: one running thread at a time, every decision from the plan.

Caller threads are real threads, but a baton decides who runs: a thread gives the
baton away only at an intercepted point (a bytecode instruction of the package
under test, a contended simulated lock, or its end).  The points at which
something happens are named by (task, index of the instruction event within
the task), so a plan is data and a replay is exact.
"""
import sys
import threading
import _thread

TOOL = 3
CUR = None            # the task that holds the baton
SIM = None            # the running simulation
_mon = sys.monitoring
_real_lock = _thread.allocate_lock
_real_rlock = threading.RLock


class Injected(BaseException):
    """Base of nothing: only used to recognise simulator-made exceptions in logs."""


class Deadlock(Exception):
    pass


class Stuck(BaseException):
    """Raised in tasks to unwind after a deadlock or the step limit."""


class StepLimit(Exception):
    pass


# ------------------------------------------------------------------ locks
class SimLock:
    """A lock whose waiters are chosen by the simulator."""

    def __init__(self, reentrant=False):
        self.owner = None
        self.depth = 0
        self.reentrant = reentrant

    def acquire(self, blocking=True, timeout=-1):
        me = CUR
        if me is None:                     # outside a simulation: single threaded
            if self.owner is not None and not self.reentrant:
                if not blocking or timeout >= 0:
                    return False
                raise RuntimeError("lock never released: caller would hang")
            self.owner = "main"
            self.depth += 1
            return True
        while self.owner is not None and not (self.reentrant and self.owner is me):
            if not blocking or timeout >= 0:
                return False               # simulated timeout: fires at once
            if SIM is None or not SIM.block(me, self):
                raise Deadlock("all tasks wait for locks")
        self.owner = me
        self.depth += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if self.depth == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def _is_owned(self):
        return self.owner is (CUR if CUR is not None else "main")

    __enter__ = acquire

    def __exit__(self, *exc):
        self.release()

    def _at_fork_reinit(self):
        self.owner, self.depth = None, 0


def _from_pkg():
    f = sys._getframe(2)
    return str(f.f_globals.get("__name__", "")).split(".")[0] == "gftool"


def _lock_factory():
    return SimLock() if _from_pkg() else _real_lock()


def _rlock_factory():
    return SimLock(reentrant=True) if _from_pkg() else _real_rlock()


def patch_locks():
    threading.Lock = _lock_factory
    _thread.allocate_lock = _lock_factory
    threading.RLock = _rlock_factory


# ------------------------------------------------------------------ monitoring
_active = False


def monitor(codes, instruction=True, call=False):
    """Route instruction (and call) events of the package's code objects here."""
    global _active
    E = _mon.events
    if not _active:
        _mon.use_tool_id(TOOL, "gfsim")
        _active = True
    ev = (E.INSTRUCTION if instruction else 0) | (E.CALL if call else 0)
    _mon.register_callback(TOOL, E.INSTRUCTION, _on_instruction)
    _mon.register_callback(TOOL, E.CALL, _on_call)
    for c in codes:
        _mon.set_local_events(TOOL, c, ev)


def unmonitor(codes):
    for c in codes:
        _mon.set_local_events(TOOL, c, 0)


def _on_instruction(code, offset):
    t = CUR
    if t is None:
        return
    t.n = n = t.n + 1
    if t.record is not None:
        t.record(t, n, code, offset)
    if n >= t.next:
        t.due(n, code, offset)


def _on_call(code, offset, func, arg0):
    t = CUR
    if t is None or t.on_call is None:
        return
    t.on_call(t, code, offset, func)


INF = 1 << 60


class Task:
    """One logical caller: a list of steps run in order on its own thread."""

    def __init__(self, tid, body):
        self.tid = tid
        self.body = body              # callable(task)
        self.n = 0                    # instruction events so far
        self.next = INF
        self.acts = []                # [(n, fn)] sorted descending, explicit actions
        self.period = 0
        self.record = None
        self.on_call = None
        self.gate = _real_lock()
        self.gate.acquire()
        self.done = False
        self.waiting = None
        self.error = None
        self.thread = None

    def plan(self, acts, period=0):
        self.acts = sorted(acts, key=lambda a: -a[0])
        self.period = period
        self._rearm()

    def _rearm(self):
        nxt = self.acts[-1][0] if self.acts else INF
        if self.period:
            p = (self.n // self.period + 1) * self.period
            nxt = min(nxt, p)
        self.next = nxt

    def due(self, n, code, offset):
        fns = []
        while self.acts and self.acts[-1][0] <= n:
            fns.append(self.acts.pop()[1])
        periodic = self.period and n % self.period == 0
        self._rearm()
        for fn in fns:
            fn(self, code, offset)
        if periodic and SIM is not None:
            SIM.preempt(self, code, offset, None)


class Sim:
    """Runs tasks on real threads, one at a time."""

    def __init__(self, tasks, rng, thread_init=None, limit=400000):
        self.tasks = tasks
        self.rng = rng                 # only used where the plan asks for a seeded choice
        self.log = []                  # [(task, n, target)] switches that took place
        self.switches = 0
        self.limit = limit
        self.thread_init = thread_init
        self.finished = _real_lock()
        self.finished.acquire()
        self.failure = None
        self.trace = []                # (file:line) at preemptions, for the interleaving measure

    # -- scheduling decisions
    def runnable(self, but=None):
        return [t for t in self.tasks if not t.done and t is not but
                and (t.waiting is None or t.waiting.owner is None)]

    def choose(self, me, target):
        r = self.runnable(me)
        if not r:
            return None
        if target is not None:
            for t in r:
                if t.tid == target:
                    return t
        # next in round-robin order after me
        return min(r, key=lambda t: (t.tid <= me.tid, t.tid))

    def preempt(self, me, code, offset, target):
        """Called on `me`'s thread at an intercepted point."""
        if self.failure is not None:
            raise Stuck
        if self.switches >= self.limit:
            return
        t = self.choose(me, target)
        if t is None:
            return
        self.switches += 1
        if len(self.log) < 20000:
            self.log.append((me.tid, me.n, t.tid))
            self.trace.append((me.tid, code.co_name if code else "-", offset))
        self._hand(me, t)
        if self.failure is not None:
            raise Stuck

    def _hand(self, me, t):
        global CUR
        CUR = t
        t.gate.release()
        me.gate.acquire()

    def block(self, me, lock):
        """`me` waits for a lock; False if nobody else can run."""
        me.waiting = lock
        t = self.choose(me, None)
        if t is None:
            me.waiting = None
            self.failure = "deadlock"
            return False
        self.switches += 1
        self._hand(me, t)
        me.waiting = None
        return True

    def _main(self, t):
        global CUR
        t.gate.acquire()
        if self.thread_init is not None:
            self.thread_init()
        try:
            t.body(t)
        except Stuck:
            t.error = t.error or "stuck"
        except BaseException as e:     # noqa: BLE001  harness error inside a task
            t.error = f"{type(e).__name__}: {e}"
        t.done = True
        nxt = self.choose(t, None)
        if nxt is None:
            left = [x for x in self.tasks if not x.done]
            if left:                   # everybody left waits for a lock
                self.failure = self.failure or "deadlock"
                nxt = left[0]
                nxt.waiting = None
        CUR = nxt
        if nxt is None:
            self.finished.release()
        else:
            nxt.gate.release()

    def run(self, first=0):
        global CUR, SIM
        SIM = self
        for t in self.tasks:
            t.thread = threading.Thread(target=self._main, args=(t,), daemon=True)
            t.thread.start()
        CUR = self.tasks[first]
        CUR.gate.release()
        self.finished.acquire()
        for t in self.tasks:
            t.thread.join()
        CUR = None
        SIM = None
        return self


class Solo:
    """A single task on the calling thread (no scheduling)."""

    def __init__(self, task):
        self.task = task

    def __enter__(self):
        global CUR
        self.prev = CUR
        CUR = self.task
        return self.task

    def __exit__(self, *exc):
        global CUR
        CUR = self.prev
