"""C15: a process that keeps calling the library does not accumulate memory."""
import builtins
import gc
import logging
import sys
import threading
import types

import numpy as np

from . import alloc, cases, catalog, engine
from .base import EXC, Check, call_sites, fail_call, fail_callback, line_starts, raise_at, run_alloc_fail, run_solo

WINDOW = 24
RATE = 0.4               # things kept per call that count as accumulation


class C15(Check):
    id = "C15"
    technique = ("deterministic simulation of long call histories with injected interrupts, failing computations, callbacks and allocations; "
                 "live array buffers (simulated allocator), containers, objects reachable from the package and threads are counted along the history")
    k_struct = {"quick": 2, "thorough": 16}
    k_screen = {"quick": 4, "thorough": 30}
    tolerate = ("stall", "crash")
    rule = ("A run is a history of 72 calls (24 for expensive ones) of one function, with values (or also integer arguments) that differ from "
            "call to call, on own or on one shared library object, each call left alone or hit at the same point by the same fault; the memory held is "
            "counted after each third. If both later thirds hold on to something in most calls the history is continued (to 1200 calls, expensive ones to 600) and judged by its last stretch, so that bounded "
            "caches pass. Non-trivial: the package's code ran in every call; distinct: (history, fault) differ.")

    def wants(self, name, tags):
        return "plot" not in tags

    def plans(self, name, s, rng, tier):
        tags = catalog.OPS[name][2]
        slow = bool(tags & {"slow", "solver", "mp"})
        if slow and rng.random() < 0.5 and tier == "quick":
            return
        a = [name, s, 0, rng.randrange(4)]
        mk = lambda **k: {"check": self.id, "case": a, "slow": slow, **k}     # noqa: E731
        yield mk()
        yield mk(ints=1)
        if "solver" in tags:
            yield mk(budget=rng.randint(1, 3))
        if engine.in_child(_has_objects, a):
            yield mk(shared=True)
        g = engine.GOLDEN(a, True)
        if not g["n"] or g["n"] > 60000:
            return
        k = (1 if slow else 2) if tier == "quick" else 12
        pts = line_starts(g)
        rng.shuffle(pts)
        for n in pts[:k]:
            yield mk(interrupt=n)
        sites = call_sites(g)
        rng.shuffle(sites)
        for st in sites[:1 if tier == "quick" else k]:
            yield mk(call=[rng.choice(st[:2]), rng.choice(["MemoryError", "LinAlgError", "FloatingPointError"])])
        if "cb" in tags and sum(g["cb"]):
            i = rng.choice([i for i, c in enumerate(g["cb"]) if c])
            yield mk(cb=[i, rng.randint(1, g["cb"][i]), rng.choice(["Custom", "ValueError", "KeyboardInterrupt"])])
            yield mk(nan=[i, rng.randint(1, g["cb"][i])])

    def run_plan(self, plan):
        return engine.in_child(_history, plan, timeout=400)


def _has_objects(case):
    engine.quiet()
    return catalog.build((*case[:4], case[2])).shared > 0


def held(owner):
    gc.collect()
    n, b = alloc.live()
    return {"array buffers": n, "bytes of arrays": b, "containers of the interpreter": len(gc.get_objects()),
            "objects reachable from the package": reachable(owner), "threads": threading.active_count()}


STOP = (types.FrameType, types.CodeType, logging.Logger, logging.Handler, logging.Manager, np.ufunc, np.dtype)


def _ours(x):
    return (getattr(x, "__module__", None) or "").split(".")[0] == "gftool"


def reachable(owner):
    """Number of objects that the package's modules, functions, classes (and the shared object) hold on to."""
    todo = [m for k, m in sorted(sys.modules.items()) if k.split(".")[0] == "gftool" and m is not None]
    todo += [owner] if owner is not None else []
    seen = {id(builtins.__dict__), id(sys.modules), id(todo)}
    n = 0
    while todo:
        x = todo.pop()
        if id(x) in seen or isinstance(x, STOP):
            continue
        seen.add(id(x))
        if isinstance(x, types.ModuleType) and x.__name__.split(".")[0] != "gftool":
            continue
        if isinstance(x, (type, types.FunctionType, types.BuiltinFunctionType)) and not _ours(x):
            continue
        n += 1
        todo += gc.get_referents(x)
    return n


PRECISE = {"objects reachable from the package", "threads"}
UNIT = {"bytes of arrays": 8}


def grown(x, y, n):
    """What grew with (nearly) every one of n calls."""
    return {k for k in x if y[k] - x[k] >= RATE * n * UNIT.get(k, 1)}


def _history(plan):
    engine.quiet()
    if not engine.DIRECT:
        gc.freeze()
    name, s, _, p = plan["case"]
    owner = catalog.build((name, s, 0, p)) if plan.get("shared") else None
    fired = [0]

    def calls(start, n):
        for v in range(start, start + n):
            one(v)

    def one(v):
        call = catalog.build((name, s, v, p))
        if "ints" in plan:
            for box, k in [*((call.args, k) for k in range(len(call.args))), *((call.kwargs, k) for k in call.kwargs)]:
                if type(box[k]) is int:
                    box[k] += v
        if "budget" in plan:
            call.kwargs["options"] = {**call.kwargs.get("options", {}), ("maxfev" if call.kwargs.get("method") in ("df-sane", "hybr") else "maxiter"): plan["budget"]}
        if owner is not None:
            call = catalog.share(call, owner)
        if "interrupt" in plan:
            _, t = run_solo(call, [(plan["interrupt"], raise_at(KeyboardInterrupt("injected")))])
            fired[0] += t.fired is not None
        elif "call" in plan:
            _, t = run_solo(call, on_call=fail_call(plan["call"][0], EXC[plan["call"][1]]()))
            fired[0] += t.fired is not None
        elif "cb" in plan:
            i, k, e = plan["cb"]
            if i < len(call.probes):
                fired[0] += len(fail_callback(call, i, k, EXC[e]()))
            cases.outcome(call)
        elif "nan" in plan:
            i, k = plan["nan"]
            if i < len(call.probes):
                call.probes[i].post[k] = lambda r: (fired.__setitem__(0, fired[0] + 1), r * np.nan)[1] if isinstance(r, (float, complex, np.ndarray)) else r
            cases.outcome(call)
        else:
            cases.outcome(call)
        for pr in call.probes:
            pr.reset()
        engine.WARNED.clear()
        engine.UNRAISABLE.clear()
    w = 8 if plan["slow"] else WINDOW
    marks, done = [], 0
    for stop in (w, 2 * w, 3 * w):
        calls(done, stop - done)
        done = stop
        marks.append(held(owner))
    bad = grown(marks[0], marks[1], w) & grown(marks[1], marks[2], w)
    if {"interrupt", "call"} & set(plan):      # an exception injected by the interpreter's hooks inside a handler leaks in the interpreter itself
        bad &= PRECISE
    if "ints" in plan:
        bad -= {"bytes of arrays"}
    stats = {"histories": 1, "suspicious_histories": int(bool(bad))}
    last = w
    for stop in (60, 190) if "ints" in plan else (60, 600) if plan["slow"] else (240, 1200):
        if bad and stop > done:
            last = stop // 4
            calls(done, stop - last - done)
            x = held(owner)
            calls(stop - last, last)
            done, y = stop, held(owner)
            bad &= grown(x, y, last)
    viol = None
    if bad:
        what = ", ".join(f"{y[k] - x[k]} {k}" for k in sorted(bad))
        viol = ("accumulates", f"{name}: the last {last} of {done} calls{_how(plan)} kept {what}")
    stats.update(calls=done, faults_injected=fired[0])
    return {"viol": viol, "stats": stats, "sig": engine.stable_hash(plan)}


def _how(plan):
    out = " on one object" if plan.get("shared") else ""
    for k, t in (("interrupt", " interrupted"), ("call", " with a failing computation"), ("cb", " with a failing callback"),
                 ("nan", " with a callback returning NaN"), ("budget", " of a small iteration budget"), ("ints", " of differing sizes")):
        if k in plan:
            out += t
    return out
