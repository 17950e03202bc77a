"""C09: Pade approximants do not depend on how they are consumed."""
import numpy as np

from . import alloc, boot, cases, catalog, engine, kernel
from .base import EXC, RTOL, Check, Result, describe


class C09(Check):
    id = "C09"
    spice = False
    technique = ("deterministic simulation of consumers: seeded programs advance, abandon, close, break and overwrite interleaved Pade "
                 "iterators, averagers and filters (one caller or several simulated threads), each delivery against a fresh, solitary use")
    rule = ("A run executes a seeded program of 10-60 consumer steps over shared coefficient arrays, kinds, filters and averagers, in one "
            "caller or in 2-3 simulated threads; every delivered approximant, average and mask is compared with the solitary "
            "reference. Non-trivial: at least two objects were in use at once; distinct: program differs.")
    shrink = ("prog",)
    stub = "the consumer of the iterators, user filters and modifiers, caller threads' schedule"

    def units(self, tier, seed):
        n, m = {"quick": (80, 1200), "thorough": (1500, 30000)}[tier]
        return [(self.id, tier, seed, r) for r in [*range(n), *(f"screen{i}" for i in range(m))]]

    def run_unit(self, unit):
        _, tier, seed, r = unit
        rng = engine.rng_for(self.id, seed, r)
        res = Result()
        world = [rng.randrange(1 << 20), rng.randrange(2), rng.randrange(5)]
        for i in range(8):
            nt = 1 if i < 5 else rng.choice([2, 3])
            prog = program(rng, nt, i % 2 and nt == 1)
            plan = {"check": self.id, "world": world, "prog": prog, "q": rng.choice([1, 2, 5, 11, 30]) if nt > 1 else 0}
            v = self.attempt(plan)
            res.add(plan, v, sample=True)
            if v.get("viol"):
                break
        return res.dump()

    def run_plan(self, plan):
        keys = sorted({repr(k): k for _, st in plan["prog"] for k in needs(st)}.items())
        gold = {r: reference(tuple(plan["world"]), k) for r, k in keys}
        return engine.in_child(_consume, plan, gold)


CACHE = {}


def reference(world, key):
    ck = (world, repr(key))
    if ck not in CACHE:
        if len(CACHE) > 3000:
            CACHE.clear()
        CACHE[ck] = engine.in_child(_alone, world, key)
    return CACHE[ck]


def _alone(world, key):
    engine.quiet()
    return cases.outcome(lambda: use(World(world), key))


# ------------------------------------------------------------------ the objects of a run
class World:
    """Two coefficient sets, output meshes, kinds, filters and averagers."""

    def __init__(self, spec):
        gt = engine.gt
        P = gt.pade
        g = cases.Gen("C09", *spec)
        n = g.s.choice([8, 10, 13])
        lead = g.pick((), (), (2,), (2, 2))
        self.z_in = 1j * np.pi / 10.0 * (2 * np.arange(n) + 1)
        self.coeff = []
        for i in range(3):
            ld = lead if i < 2 else g.pick((), (3,))
            poles, w = g.real((*ld, 4), -1, 1), g.real((*ld, 4), 0.1, 1)
            f = np.sum(w[..., None, :] / (self.z_in[:, None] - poles[..., None, :]), axis=-1)
            f = f * (1 + g.pick(0.0, 1e-4) * g.real(f.shape))
            self.coeff.append(g.arr(catalog._coeff(self.z_in, f)))
        self.z_in = g.arr(self.z_in)
        m = g.num(2, 6)
        self.z = [g.arr(g.real((k,), -1.2, 1.2) + 1j * g.pick(0.05, 0.3)) for k in (m, m, g.num(1, 5))]
        bad = np.array(self.z[0])           # a mesh on which every evaluation fails
        bad[-1] = g.pick(np.nan, np.inf)
        self.z.append(bad)
        self.kinds = [P.KindGf(g.num(1, 4), n - g.num(0, 2)), P.KindSelf(g.num(2, 5), n), P.KindGf(g.num(1, 3), n)]
        self.filters = [P.FilterNegImag(g.pick(1e-8, 0.1)), P.FilterHighVariance(abs_num=g.num(1, 3)),
                        P.FilterNegImagNum(abs_num=g.num(1, 3)), P.FilterHighVariance(rel_num=g.pick(0.3, 0.6))]
        self.masks, self.av = [], []
        mods = {"inv": lambda z, p: 1 / p, "imag": lambda z, p: p.imag.copy(), "inplace": _inplace, "arg": lambda z, p, a=1.0: p * a}
        for d, k in ((0, 0), (1, 0), (0, 1), (2, 2), (1, 1)):
            ld = np.shape(self.coeff[d])[:-1]
            v = catalog.valid_(g, self.kinds[k], ld if g.chance(0.6) else ())
            v = np.array(v)
            self.masks.append(v)
            if len(self.av) < 3:
                self.av.append(P.Averager(self.z_in, self.coeff[d], valid_pades=v, kind=self.kinds[k]))
            else:
                self.av.append(P.Mod_Averager(self.z_in, self.coeff[d], mods[g.pick("inv", "imag", "inplace", "arg")], valid_pades=v,
                                              kind=self.kinds[k], vectorized=g.pick(True, False)))

    def iterator(self, d, z, k):
        it = engine.gt.pade.calc_iterator(self.z[z], self.z_in, self.coeff[d])
        return it if k is None else self.kinds[k].islice(it)


def _inplace(z, p):
    p *= 2            # a modifier that works in place on what it is given
    return p


def use(w, key):
    """Straightforward use of one object, from a fresh state."""
    kind = key[0]
    if kind == "it":
        return [np.array(p) for p in w.iterator(*key[1:])]
    if kind == "av":
        return w.av[key[1]](w.z[key[2]])
    if kind == "fl":
        return w.filters[key[1]](w.iterator(*key[2:]))
    if kind == "apply":
        return engine.gt.pade.apply_filter(*[w.filters[f] for f in key[1]], validity_iter=w.iterator(*key[2:]))
    if kind == "avgd":
        fl = [w.filters[f] for f in key[1]]
        return engine.gt.pade.averaged(w.z[key[3]], w.z_in, coeff=w.coeff[key[2]], filter_valid=fl, kind=w.kinds[key[4]])
    if kind == "kind":
        k = w.kinds[key[1]]
        return [len(k), [k[i] for i in range(len(k))], repr(k.slice), repr(k), list(k.islice(range(30)))]
    raise KeyError(kind)


def needs(st):
    s = st[0]
    if s == "new":
        return [["it", *st[2:5]]]
    if s == "use":
        return [st[1]]
    if s == "nest":
        return [st[1], st[3]]
    if s == "broken":
        return [st[1]]
    return []


def program(rng, nt, faults):
    """A seeded list of [task, step]."""
    out = []

    def key():
        x = rng.random()
        if x < 0.4:
            return ["av", rng.randrange(5), rng.choice([0, 1, 2, 0, 1, 2, 3])]
        if x < 0.6:
            return ["fl", rng.randrange(4), rng.randrange(3), rng.randrange(3), rng.randrange(3)]
        if x < 0.72:
            return ["apply", rng.sample(range(4), rng.randint(1, 3)), rng.randrange(3), rng.randrange(3), rng.randrange(3)]
        if x < 0.84:
            return ["avgd", rng.sample(range(4), rng.randint(1, 2)), rng.randrange(3), rng.choice([0, 1, 2, 0, 1, 2, 3]), rng.randrange(3)]
        return ["kind", rng.randrange(3)]
    for tid in range(nt):
        live = []
        for _ in range(rng.randint(10, 60) if nt == 1 else rng.randint(6, 20)):
            x = rng.random()
            if x < 0.18 or (not live and x < 0.72):
                slot = f"{tid}.{rng.randrange(4)}"
                out.append([tid, ["new", slot, rng.randrange(3), rng.randrange(3), rng.choice([None, None, 0, 1, 2])]])
                if slot not in live:
                    live.append(slot)
            elif x < 0.62:
                out.append([tid, ["next", rng.choice(live), rng.choice([1, 1, 1, 2, 5, 99])]])
            elif x < 0.68:
                out.append([tid, ["scrib", rng.choice(live), rng.randrange(8)]])
            elif x < 0.72:
                out.append([tid, [rng.choice(["close", "drop", "throw"]), rng.choice(live)]])
            elif x < 0.90 or not faults:
                out.append([tid, ["use", key(), rng.random() < 0.3]])
            elif x < 0.93:
                k = rng.choice([["fl", rng.randrange(4), rng.randrange(3), rng.randrange(3), rng.randrange(3)],
                                ["apply", rng.sample(range(4), 2), rng.randrange(3), rng.randrange(3), rng.randrange(3)]])
                out.append([tid, ["broken", k, rng.randrange(4), rng.choice(["Custom", "ValueError", "KeyboardInterrupt", "StopAsyncIteration"])]])
            elif x < 0.96:
                k = ["apply", [rng.randrange(4)], rng.randrange(3), rng.randrange(3), rng.randrange(3)]
                out.append([tid, ["nest", k, rng.randrange(3), key()]])
            else:
                out.append([tid, ["interrupt", rng.choice(["next", "use"]), rng.choice(live) if live else "0.0", key(), rng.randint(1, 120)]])
    # interleave the order in the listing (a task's own steps keep their order)
    return out


# ------------------------------------------------------------------ execution
def _consume(plan, gold):
    engine.quiet()
    w = World(tuple(plan["world"]))
    before = [m.copy() for m in w.masks]
    for m in w.masks:                       # the masks were the caller's: reused after the averagers were built
        m[...] = ~m
    state = {"viol": None}
    stats = {"steps": 0}
    slots, held = {}, []

    def count(k):
        stats[k] = stats.get(k, 0) + 1

    def bad(cls, text):
        if state["viol"] is None:
            state["viol"] = (cls, text)

    def compare(frozen, ref, what):
        d = cases.same(frozen, ref, RTOL)
        if d:
            bad("value", f"{what}: {d}")

    def checked_use(key, what, scribble=False):
        res = []

        def fn():
            r = use(w, key)
            res.append(r)
            return r
        out = cases.outcome(fn)
        g = gold[repr(key)]
        if out[0] != g[0] or (out[0] == "exc" and out[1:] != g[1:]):
            bad("outcome", f"{what} {key}: {describe(out)} instead of {describe(g)}")
        elif out[0] == "ret":
            compare(out[1], g[1], f"{what} {key}")
            if scribble and res:
                for a in cases.arrays_in(res[0]):
                    if a.flags.writeable and a.size:
                        a[...] = 1 if a.dtype == bool else 1e30
                count("results_overwritten")

    def step(st):
        stats["steps"] += 1
        s = st[0]
        if s == "new":
            g = gold[repr(["it", *st[2:5]])]
            slots[st[1]] = {"it": w.iterator(*st[2:5]), "gold": g, "pos": 0, "got": [], "key": st[2:5]}
            count("iterators")
        elif s == "next":
            x = slots.get(st[1])
            if x is None or x["gold"][0] != "ret":
                return
            seq = x["gold"][1][2]
            for _ in range(st[2]):
                try:
                    a = next(x["it"])
                except StopIteration:
                    if x["pos"] != len(seq):
                        bad("length", f"iterator {x['key']} ended after {x['pos']} instead of {len(seq)} approximants")
                    break
                except Exception as e:          # noqa: BLE001
                    bad("outcome", f"iterator {x['key']} raised {type(e).__name__}: {e}")
                    break
                if x["pos"] >= len(seq):
                    bad("length", f"iterator {x['key']} delivered more than {len(seq)} approximants")
                    break
                compare(cases.freeze(np.asarray(a)), seq[x["pos"]], f"iterator {x['key']}, approximant {x['pos']}")
                x["got"].append([a, seq[x["pos"]], x["pos"], x["key"]])
                held.append(x["got"][-1])
                x["pos"] += 1
                count("approximants")
        elif s == "scrib":
            x = slots.get(st[1])
            if x and x["got"]:
                e = x["got"][-1 - st[2] % len(x["got"])]
                if e[1] is not None and getattr(e[0], "flags", None) is not None and e[0].flags.writeable:
                    e[0][...] = 1e30
                    e[1] = None
                    count("approximants_overwritten")
        elif s in ("close", "throw", "drop"):
            x = slots.pop(st[1], None)
            if x is None:
                return
            it = x["it"]
            if s == "close" and hasattr(it, "close"):
                it.close()
            elif s == "throw" and hasattr(it, "throw"):
                e = EXC["Custom"]()
                try:
                    it.throw(e)
                    bad("swallowed", f"iterator {x['key']} swallowed an exception thrown into it")
                except StopIteration:
                    bad("swallowed", f"iterator {x['key']} swallowed an exception thrown into it")
                except BaseException as got:    # noqa: BLE001
                    if got is not e:
                        bad("replaced", f"iterator {x['key']}: exception thrown into it became {type(got).__name__}")
            del it, x
            count("iterators_" + s)
        elif s == "use":
            checked_use(st[1], "use", st[2])
            count("uses")
        elif s == "broken":
            _, key, m, ename = st
            e = EXC.get(ename, lambda: StopAsyncIteration("injected"))()

            def source(it):
                for i, a in enumerate(it):
                    if i == m:
                        raise e
                    yield a
                raise e
            try:
                if key[0] == "fl":
                    w.filters[key[1]](source(w.iterator(*key[2:])))
                else:
                    engine.gt.pade.apply_filter(*[w.filters[f] for f in key[1]], validity_iter=source(w.iterator(*key[2:])))
                bad("swallowed", f"{key}: the failure of the iterator it consumed was swallowed")
            except BaseException as got:      # noqa: BLE001
                if got is not e:
                    bad("replaced", f"{key}: the failure of the iterator became {type(got).__name__}: {got}")
            checked_use(key, "after a failing iterator")
            count("sources_failed")
        elif s == "nest":
            _, key, pos, inner = st

            def nesting(it, fl=w.filters[key[1][0]]):
                items = []
                for i, a in enumerate(it):
                    if i == pos:
                        checked_use(inner, "inside a filter")
                    items.append(a)
                return fl(iter(items))
            try:
                r = engine.gt.pade.apply_filter(nesting, validity_iter=w.iterator(*key[2:]))
                out = ("ret", cases.freeze(r))
            except Exception as e:            # noqa: BLE001
                out = cases.exc_outcome(e)
            g = gold[repr(key)]
            if out[0] != g[0]:
                bad("outcome", f"filter around {inner}: {describe(out)} instead of {describe(g)}")
            elif out[0] == "ret":
                compare(out[1], g[1], f"filter around {inner}")
            count("nested")
        elif s == "interrupt":
            _, what, slot, key, n = st
            t = kernel.Task(0, None)
            e = KeyboardInterrupt("injected")

            def act(task, code, offset):
                raise e
            t.plan([(n, act)])
            kernel.monitor(boot.CODES)
            x = slots.get(slot)
            with kernel.Solo(t):
                try:
                    if what == "next" and x:
                        for _ in range(3):
                            next(x["it"])
                    else:
                        use(w, key)
                except BaseException:         # noqa: BLE001
                    pass
            kernel.unmonitor(boot.CODES)
            slots.pop(slot, None)             # its fate is Python's business
            count("interrupts")

    tids = sorted({t for t, _ in plan["prog"]})
    if len(tids) <= 1:
        for _, st in plan["prog"]:
            step(st)
            if state["viol"]:
                break
        ev = 0
    else:
        def body(t):
            for tid, st in plan["prog"]:
                if tid == tids[t.tid] and state["viol"] is None:
                    step(st)
        tasks = [kernel.Task(i, body) for i in range(len(tids))]
        sim = kernel.Sim(tasks, None, thread_init=alloc.install, limit=3000)
        for t in tasks:
            t.plan([], period=plan["q"])
        kernel.monitor(boot.CODES)
        sim.run()
        kernel.unmonitor(boot.CODES)
        errs = [t.error for t in tasks if t.error]
        if sim.failure == "deadlock":
            bad("deadlock", "the consumers block each other for ever")
        elif errs:
            raise RuntimeError(f"harness: {errs}")
        ev = sum(t.n for t in tasks)
        stats["preemptions"] = sim.switches
        stats["threaded_runs"] = 1
    for a, ref, pos, key in held:
        if ref is not None and state["viol"] is None:
            compare(cases.freeze(np.asarray(a)), ref, f"iterator {key}: approximant {pos} after it was delivered")
    for m, b in zip(w.masks, before):
        if not (m == ~b).all():
            bad("modified", "a validity mask of the caller was modified")
    stats["events"] = ev
    return {"viol": state["viol"], "stats": stats, "sig": engine.stable_hash([plan["world"], plan["prog"], plan["q"]])}
