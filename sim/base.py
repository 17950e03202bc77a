"""Common parts of the checks."""
from collections import Counter

import numpy as np

from . import alloc, boot, cases, catalog, engine, kernel

RTOL = 1e-11      # "the same result": bits normally agree; slack only for harmless reordering


class Result:
    """What a unit of work found."""

    def __init__(self):
        self.runs = 0
        self.stats = Counter()
        self.sigs = set()
        self.samples = []
        self.violations = []        # (plan, verdict)
        self.notes = Counter()

    def add(self, plan, verdict, sample=False):
        self.runs += 1
        self.stats.update(verdict.get("stats", {}))
        sig = verdict.get("sig")
        if sig is not None:
            self.sigs.add(sig)
        if sample and len(self.samples) < 1:
            self.samples.append(brief(plan, verdict))
        if verdict.get("viol"):
            self.violations.append((plan, verdict))

    def dump(self):
        return {"runs": self.runs, "stats": self.stats, "sigs": self.sigs, "samples": self.samples,
                "violations": self.violations, "notes": self.notes}


def brief(plan, verdict):
    s = {k: v for k, v in plan.items() if k not in ("check",)}
    t = repr(s)
    return {"plan": s if len(t) < 1500 else t[:1500], "events": verdict.get("stats", {}).get("events", 0)}


class Check:
    id = None
    technique = ""
    level_note = ""
    rule = ""
    tags_any = None            # restrict ops to these tags
    k_struct = {"quick": 4, "thorough": 30}
    pool = {"quick": 60, "thorough": 240}
    spice = True               # special values in some of the data

    def ops(self):
        return [n for n, (f, w, tags) in catalog.OPS.items()
                if (self.tags_any is None or tags & self.tags_any) and self.wants(n, tags)]

    def wants(self, name, tags):
        return True

    # Screening units run many cases in one process (reset in between); whatever they suspect is judged again in pristine processes.
    screens = {"quick": 1, "thorough": 10}
    k_screen = {"quick": 16, "thorough": 60}

    def units(self, tier, seed):
        rep = {"quick": 1, "thorough": 6}[tier]
        reps = [*range(rep), *(f"screen{i}" for i in range(self.screens[tier]))]
        return [(self.id, tier, seed, name, r) for r in reps for name in self.order(self.ops())]

    def work(self, unit):
        """Result of a unit of either kind."""
        if not self.is_screen(unit):
            return self.run_unit(unit)
        try:
            got = engine.in_child(engine.direct, self.run_unit, unit, timeout=240)
        except engine.ChildProblem as e:
            res = Result()
            res.stats[f"screenings_{e.kind}"] += 1
            return self.rejudge(unit, res.dump())
        got["stats"]["screening_runs"] = got["runs"]
        suspects, got["violations"] = got["violations"], []
        for plan, _ in suspects:
            v = self.attempt(plan)
            got["runs"] += 1
            if v.get("viol"):
                got["violations"].append((plan, v))
                return got
            got["stats"]["suspicions_not_confirmed"] += 1
        return self.rejudge(unit, got) if suspects else got

    def rejudge(self, unit, got):
        """A screening that ended early or suspected too much: the same kind of unit, every run in a pristine process."""
        iso = self.run_unit((*unit[:-1], f"again-{unit[-1]}"))
        for k in ("runs", "violations"):
            iso[k] = iso[k] + got[k]
        iso["stats"].update(got["stats"])
        iso["sigs"] |= got["sigs"]
        return iso

    @staticmethod
    def is_screen(unit):
        return isinstance(unit[-1], str) and unit[-1].startswith("screen")

    @staticmethod
    def order(names):
        """Expensive ops first, for the pool's sake (the order itself is fixed)."""
        def cost(n):
            tags = catalog.OPS[n][2]
            return -(3 * ("slow" in tags) + 2 * ("plot" in tags) + 2 * ("solver" in tags) + 1 * ("pade" in tags))
        return sorted(names, key=cost)

    def run_unit(self, unit):
        _, tier, seed, name, rep = unit
        rng = engine.rng_for(self.id, seed, name, rep)
        res = Result()
        w = catalog.OPS[name][1]
        k = max(2, round((self.k_screen if self.is_screen(unit) else self.k_struct)[tier] * w))
        structs, cov = engine.structures(name, k, rng, self.pool[tier])
        res.stats["structures"] += len(structs)
        res.notes["instructions_reached"] += len(cov)
        for s in structs:
            try:
                for plan in self.plans(name, s, rng, tier):
                    v = self.attempt(plan)
                    res.add(plan, v, sample=True)
                    if v.get("viol"):
                        break
            except engine.ChildProblem as e:       # the reference itself does not end: nothing to compare with
                if e.kind != "stall":
                    raise
                res.stats["references_stalled"] += 1
            if len(res.violations) >= 2:
                break
        return res.dump()

    tolerate = ()           # child problems that are no violation here (counted)

    def attempt(self, plan):
        """run_plan, with the death or silence of the simulated process as an observation."""
        try:
            return self.run_plan(plan)
        except engine.ChildProblem as e:
            if e.kind in self.tolerate:
                return {"viol": None, "stats": {f"process_{e.kind}": 1}, "sig": None}
            if e.kind == "crash" and "alloc" in repr(plan):
                # numpy itself does not survive the failure of some of its allocations
                return {"viol": None, "stats": {"numpy_died_of_failed_allocation": 1}, "sig": None}
            if e.kind == "crash":
                return {"viol": ("crash", f"the process died ({e.text})"), "stats": {}, "sig": None}
            if e.kind == "stall":
                return {"viol": ("hang", "the call does not end"), "stats": {}, "sig": None}
            raise

    def plans(self, name, s, rng, tier):
        raise NotImplementedError

    def run_plan(self, plan):
        raise NotImplementedError

    # lists in the plan that may be shortened while the violation stays
    shrink = ()

    def minimise(self, plan, verdict, budget=120):
        budget = [budget]
        cls = verdict["viol"][0]

        def fails(p):
            try:
                v = self.attempt(p)
            except engine.ChildProblem:
                return False
            return bool(v.get("viol")) and v["viol"][0] == cls
        for key in self.shrink:
            node = plan
            parts = key.split(".")
            for q in parts[:-1]:
                node = node.get(q) if isinstance(node, dict) else None
            if not isinstance(node, dict) or not isinstance(node.get(parts[-1]), list):
                continue

            def with_list(lst):
                return _with(plan, parts, lst)
            best = engine.ddmin(node[parts[-1]], lambda lst: fails(with_list(lst)), budget)
            plan = with_list(best)
        return plan


def _with(plan, parts, val):
    new = dict(plan)
    if len(parts) == 1:
        new[parts[0]] = val
    else:
        new[parts[0]] = _with(plan[parts[0]], parts[1:], val)
    return new


# ------------------------------------------------------------------ helpers for plans
def spots(g, k, rng, lines_only=False):
    """k event indices of a reference run at which to switch or inject."""
    pts, n = g["points"], g["n"]
    if n == 0 or not pts:
        return []
    by_line = {}
    for first, last, c, off, ln in pts:
        by_line.setdefault((c, ln), (first, last))
    starts = sorted(by_line.values())
    out = set()
    for _ in range(k):
        if lines_only or rng.random() < 0.5:
            out.add(rng.choice(rng.choice(starts)))
        else:
            out.add(rng.randint(1, n))
    return sorted(out)


def line_starts(g):
    """First event of every distinct line of the reference run."""
    seen, out = set(), []
    for first, last, c, off, ln in g["points"]:
        if (c, ln) not in seen:
            seen.add((c, ln))
            out.append(first)
    return out


def other_case(rng, name, avoid=(), tags=None):
    names = [n for n, (f, w, t) in catalog.OPS.items() if n not in avoid and not (t & {"plot", "slow"})
             and (tags is None or t & tags)]
    return [rng.choice(names), rng.randrange(1 << 20), rng.randrange(3), rng.randrange(4)]


def hostile(rng, case):
    """The case with one argument nobody expects (NaN, inf, zeros, ...); None for the solvers."""
    if catalog.OPS[case[0]][2] & {"slow", "solver", "mp", "plot"}:
        return None
    return [*case[:4], ["twist", rng.randrange(6), rng.choice(catalog.HOSTILE + catalog.POKES)]]


def raise_at(exc):
    def act(task, code, offset):
        task.fired = (code, offset)
        raise exc
    return act


def run_solo(call, acts=(), on_call=None, record=None, monitor=True):
    """Run one call on this thread with actions at event indices; (outcome, task)."""
    t = kernel.Task(0, None)
    t.fired = None
    t.record = record
    t.on_call = on_call
    t.plan([*acts, (engine.LIMIT, engine.no_end)])
    if monitor:
        kernel.monitor(boot.CODES, call=on_call is not None)
    with kernel.Solo(t):
        out = cases.outcome(call)
    if monitor:
        kernel.unmonitor(boot.CODES)
    return out, t


def diff(out, gold, rtol=RTOL):
    """None, or how an outcome differs from the reference outcome."""
    if out[0] != gold[0]:
        return f"{describe(out)} instead of {describe(gold)}"
    if out[0] == "exc":
        return None if out[1:] == gold[1:] else f"{describe(out)} instead of {describe(gold)}"
    return cases.same(out[1], gold[1], rtol)


def describe(out):
    if out[0] == "exc":
        return f"raised {out[1]}({out[2][:100]!r})"
    return "returned a value"


def arrays_digest(call):
    return cases.digest(cases.caller_data(call))


def safe_build(case):
    return catalog.build(tuple(case))


# ------------------------------------------------------------------ faults at the work a call delegates
def call_sites(g, only=None):
    """One entry per distinct call site: [(first index, last index, name, is linalg)]."""
    sites = {}
    for idx, c, off, work, lin, name in g["calls"]:
        if work and (only is None or only(name, lin)):
            if (c, off) in sites:
                sites[c, off][1] = idx
            else:
                sites[c, off] = [idx, idx, name, lin]
    return sorted(sites.values())


def fail_call(k, exc):
    """on_call hook: the k-th call event fails with exc."""
    seen = [0]

    def on_call(t, code, offset, func):
        seen[0] += 1
        if seen[0] == k:
            t.fired = (code, offset)
            raise exc
    return on_call


def _noconv():
    from scipy.optimize import NoConvergence
    return NoConvergence("injected")


EXC = {"MemoryError": lambda: MemoryError("injected"), "LinAlgError": lambda: np.linalg.LinAlgError("injected"),
       "FloatingPointError": lambda: FloatingPointError("injected"), "ValueError": lambda: ValueError("injected"),
       "RuntimeError": lambda: RuntimeError("injected"), "KeyboardInterrupt": lambda: KeyboardInterrupt("injected"),
       "TypeError": lambda: TypeError("injected"), "ZeroDivisionError": lambda: ZeroDivisionError("injected"),
       "KeyError": lambda: KeyError("injected"), "IndexError": lambda: IndexError("injected"),
       "AttributeError": lambda: AttributeError("injected"), "OverflowError": lambda: OverflowError("injected"),
       "ArithmeticError": lambda: ArithmeticError("injected"), "AssertionError": lambda: AssertionError("injected"),
       "NotImplementedError": lambda: NotImplementedError("injected"), "ImportError": lambda: ImportError("injected"),
       "OSError": lambda: OSError("injected"), "SystemExit": lambda: SystemExit("injected"),
       "UserWarning": lambda: UserWarning("injected"), "LookupError": lambda: LookupError("injected"),
       "TimeoutError": lambda: TimeoutError("injected"), "Custom": lambda: CustomError("injected"),
       "RecursionError": lambda: RecursionError("injected"), "EOFError": lambda: EOFError("injected"), "BufferError": lambda: BufferError("injected"),
       "RuntimeWarning": lambda: RuntimeWarning("injected"), "DeprecationWarning": lambda: DeprecationWarning("injected"),
       "NoConvergence": _noconv,
       "UnicodeError": lambda: UnicodeError("injected"), "AxisError": lambda: np.exceptions.AxisError("injected"),
       "ComplexWarning": lambda: np.exceptions.ComplexWarning("injected"),
       "StopAsyncIteration": lambda: StopAsyncIteration("injected"),
       "GeneratorExit": lambda: GeneratorExit("injected"),
       "CustomBase": lambda: CustomBase("injected"), "Exception": lambda: Exception("injected")}


class CustomError(Exception):
    pass


class CustomBase(BaseException):
    pass


def fail_callback(call, i, k, exc):
    """The k-th invocation of the i-th user callback raises exc."""
    fired = []

    def act(probe, args, kwargs):
        fired.append(1)
        raise exc
    call.probes[i].acts[k] = act
    return fired


def run_alloc_fail(call, after, length=1):
    """Outcome of a call during which the array allocations after+1 .. after+length fail."""
    got = [0]

    def fn():
        alloc.fail(after, length)
        try:
            return call()
        finally:
            got[0] = alloc.failed()
            alloc.fail(-1)
    out = cases.outcome(fn)
    return out, got[0]
