"""C10: logging never changes what a call does."""
import logging

from . import cases, catalog, engine
from .base import EXC, Check, describe, diff, fail_callback, hostile, run_solo, spots


class C10(Check):
    id = "C10"
    technique = ("deterministic simulation: log levels, handlers and disabling switched at seeded instructions of a running call or "
                 "from inside a handler, with budgets and callbacks failing as well; outcome against the run without logging")
    k_struct = {"quick": 12, "thorough": 60}
    rule = ("A run executes one call under one seeded logging configuration (per logger level, formatting handler, "
            "logging.disable), possibly switched one to three times at seeded instructions or from within a handler, possibly with a "
            "failing callback; outcome compared with the silent reference, every emitted record formatted. Non-trivial: a record was "
            "emitted or the configuration was switched during the call; distinct: (case, configuration, switch points) differ.")
    stub = "logging handlers, user callbacks"
    shrink = ("switch",)

    def plans(self, name, s, rng, tier):
        tags = catalog.OPS[name][2]
        a = [name, s, 0, rng.randrange(3)]
        g = engine.GOLDEN(a)
        loud = engine.in_child(_records, a)
        mk = lambda **k: {"check": self.id, "case": a, **k}     # noqa: E731
        yield mk(conf=["gftool", "DEBUG"], switch=[])
        if not loud:
            # silent op: cheap sampling only
            yield mk(conf=[rng.choice(["", "gftool"]), rng.choice(["DEBUG", "INFO", "NOTSET"])],
                     switch=[[n, rng.choice(["gftool", ""]), rng.choice(["INFO", "DEBUG", "ERROR"])] for n in spots(g, 2, rng)])
            return
        mods = ["gftool", "", *loud]
        levels = ["DEBUG", "INFO", "WARNING", "ERROR", "NOTSET", "off", "disabled"]
        for lv in ("INFO", "WARNING", "NOTSET", "DEBUG"):
            yield mk(conf=[rng.choice(mods), lv], switch=[])
        yield mk(conf=["gftool", 15], switch=[])
        few = "slow" in tags
        for _ in range(3):
            h = hostile(rng, a)
            if h:
                yield {"check": self.id, "case": h, "conf": ["gftool", rng.choice(["DEBUG", "INFO"])], "switch": []}
        for _ in range(4 if few else 10 if tier == "quick" else 30):
            sw = [[n, rng.choice(mods), rng.choice(levels)] for n in spots(g, rng.randint(1, 3), rng)]
            yield mk(conf=[rng.choice(mods), rng.choice(levels)], switch=sw)
        for _ in range(2 if few else 4):
            yield mk(conf=[rng.choice(mods), rng.choice(["DEBUG", "INFO"])], switch=[],
                     inside=[rng.randint(1, 4), rng.choice(mods), rng.choice(levels)])
        for i, c in enumerate(g["cb"]):
            for _ in range(3 if c else 0):
                yield mk(conf=["gftool", rng.choice(["DEBUG", "INFO"])], switch=[],
                         cb=[i, rng.randint(1, c), rng.choice(["Custom", "ValueError", "KeyboardInterrupt", "RuntimeError"])])

    def run_plan(self, plan):
        g = engine.GOLDEN(plan["case"])
        return engine.in_child(_logged, plan, g["out"], g["cb"])


class Handler(logging.Handler):
    def __init__(self):
        super().__init__()
        self.setFormatter(logging.Formatter("%(asctime)s %(levelname)s %(name)s %(funcName)s:%(lineno)d %(message)s"))
        self.names, self.bad, self.inside, self.n = {}, [], None, 0

    def emit(self, record):
        if not record.name.startswith("gftool"):
            return
        self.n += 1
        self.names[record.name] = self.names.get(record.name, 0) + 1
        try:
            self.format(record)
        except Exception as e:        # noqa: BLE001
            self.bad.append(f"{record.name}, line {record.lineno}: {record.msg!r}: {type(e).__name__}: {e}")
        if self.inside and self.n == self.inside[0]:
            configure(*self.inside[1:])


def configure(name, level):
    lg = logging.getLogger(name)
    if level == "off":
        logging.disable(logging.CRITICAL)
    elif level == "disabled":
        lg.disabled = True
    else:
        logging.disable(logging.NOTSET)
        lg.disabled = False
        lg.setLevel(level)


def _records(case):
    """Names of the loggers a call writes to."""
    engine.quiet()
    call = catalog.build(tuple(case))
    h = Handler()
    logging.getLogger().addHandler(h)
    configure("gftool", "DEBUG")
    cases.outcome(call)
    return sorted(h.names)


def _logged(plan, gold, cb):
    engine.quiet()
    call = catalog.build(tuple(plan["case"]))
    h = Handler()
    h.inside = plan.get("inside")
    logging.getLogger().addHandler(h)
    configure(*plan["conf"])
    fired = []
    exc = None
    if "cb" in plan:
        i, k, e = plan["cb"]
        exc = EXC[e]()
        fired = fail_callback(call, i, k, exc)
        gold = cases.exc_outcome(exc)
    done = [0]

    def switch(name, level):
        def act(task, code, offset):
            done[0] += 1
            configure(name, level)
        return act
    acts = [(n, switch(nm, lv)) for n, nm, lv in plan["switch"]]
    if acts:
        out, t = run_solo(call, acts)
    else:
        out, t = cases.outcome(call), None
    name = plan["case"][0]
    viol = None
    if h.bad:
        viol = ("format", f"{name} emitted a record that cannot be formatted: {h.bad[0]}")
    elif exc is None or fired:
        d = diff(out, gold)
        if d:
            how = f"logging {plan['conf']}" + (f" switched {plan['switch']}" if acts else "") + (f" switched by a handler {h.inside}" if h.inside else "")
            viol = ("changed", f"{name} under {how}: {d}")
        for pr, c in zip(call.probes, cb):
            if viol is None and exc is None and bool(pr.count) != bool(c):
                viol = ("changed", f"{name} under logging {plan['conf']}: the callback {pr.__name__} was invoked {pr.count} times instead of {c}")
    stats = {"log_records": h.n, "switches_in_flight": done[0], "events": t.n if t else 0, "callback_failures_injected": len(fired)}
    return {"viol": viol, "stats": stats, "sig": engine.stable_hash(plan) if h.n or done[0] else None}
