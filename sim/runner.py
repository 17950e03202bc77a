"""Command line: run a check, write its evidence, or replay a failure."""
import argparse
import ctypes
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16"]
FINDINGS = os.path.join(VERIF, "known_findings.jsonl")


def reexec():
    """Fixed hash seed, no address randomisation, single-threaded libraries."""
    from . import boot
    if os.environ.get("GFSIM_READY") == "1":
        return
    env = dict(os.environ)
    env.update(boot.ENV)
    env["GFSIM_READY"] = "1"
    env.setdefault("PYTHONHASHSEED", "0")
    env["MPLCONFIGDIR"] = os.path.join(VERIF, "build", "mplconfig")
    os.makedirs(env["MPLCONFIGDIR"], exist_ok=True)
    try:
        libc = ctypes.CDLL(None)
        libc.personality(0x0040000)
    except Exception:     # noqa: BLE001  best effort
        pass
    py = boot.python()
    os.execve(py, [py, "-B", "-m", "sim.runner", *sys.argv[1:]], env)


def get_check(cid):
    return getattr(importlib.import_module(f"sim.{cid.lower()}"), cid)()


def findings(cid):
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            if line and not line.startswith(("#", "fixed:")):
                d = json.loads(line)
                if d.get("property") == cid:
                    out.append(d)
    return out


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def write_replay(chk, plan, verdict, seed, tier):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    from . import engine
    body = {"property": chk.id, "seed": seed, "tier": tier, "violation": {"class": verdict["viol"][0], "what": verdict["viol"][1]},
            "plan": jsonable(plan)}
    path = os.path.join(d, f"{chk.id}-{engine.stable_hash(json.dumps(body['plan'], sort_keys=True)) & 0xFFFFFFFF:08x}.json")
    with open(path, "w") as f:
        json.dump(body, f, indent=1)
    return path


def replay(path):
    from . import cases, engine
    body = json.load(open(path))
    chk = get_check(body["property"])
    cases.SPICE = chk.spice
    engine.start()
    v = chk.attempt(body["plan"])
    if v.get("viol"):
        print(f"  {v['viol'][0]}: {v['viol'][1]}")
        print(f"VIOLATION property={chk.id} replay={path}")
        return 1
    print("replay: no violation")
    return 0


def reproduces(path):
    env = dict(os.environ)
    env.pop("GFSIM_READY", None)
    p = subprocess.run([sys.executable, "-m", "sim.runner", "replay", "--replay", path], cwd=VERIF, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    return p.returncode == 1


def run(cid, tier, seed, evidence=True):
    from . import cases, engine
    t0 = time.monotonic()
    chk = get_check(cid)
    cases.SPICE = chk.spice
    engine.start()
    units = chk.units(tier, seed)
    cap = float(os.environ.get("GFSIM_CAP", "780" if tier == "quick" else "20000"))
    stats, notes, sigs, samples = Counter(), Counter(), set(), []
    runs, cpu, problems, viols, done = 0, 0.0, [], [], 0
    known = findings(cid)
    hits = {}
    for r in engine.pool_map(chk.work, units, deadline=t0 + cap):
        if "cap" in r:                # out of time: what was explored counts, the rest is reported as skipped
            break
        done += 1
        cpu += r.get("cpu", 0)
        if "problem" in r:
            problems.append((r["unit"], r["problem"]))
            if len(problems) > 20:
                break
            continue
        runs += r["runs"]
        stats.update(r["stats"])
        notes.update(r["notes"])
        sigs |= r["sigs"]
        if len(samples) < 6 and r["samples"]:
            samples.extend(r["samples"])
        for plan, v in r["violations"]:
            k = match(known, plan, v)
            if k is None:
                viols.append((plan, v))
            else:
                hits[k["id"]] = hits.get(k["id"], 0) + 1
        if viols:
            break
    sim_wall = time.monotonic() - t0
    path = None
    if viols:
        plan, v = viols[0]
        small = plan
        try:
            small = chk.minimise(plan, v)
            vv = chk.attempt(small)
            if not vv.get("viol"):
                small, vv = plan, v
        except Exception as e:        # noqa: BLE001
            print(f"note: minimisation stopped: {e}")
            small, vv = plan, v
        path = write_replay(chk, small, vv, seed, tier)
        try:
            if not reproduces(path):
                print("note: minimised replay does not reproduce in a fresh process, keeping the full plan")
                path = write_replay(chk, plan, v, seed, tier)
                vv = v
                if not reproduces(path):
                    print("note: the full plan does not reproduce in a fresh process either")
        except subprocess.TimeoutExpired:
            print("note: replay timed out")
        print(f"  {vv['viol'][0]}: {vv['viol'][1]}")
    for k in known:
        if k["id"] in hits:
            print(f"KNOWN-FINDING: property={cid} {k['what']}")
    wall = time.monotonic() - t0
    stats = dict(sorted(stats.items()))
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(sigs),
        "rule": chk.rule,
        "samples": [jsonable(s) for s in samples] or ["(no run completed)"],
        "units": done,
        "units_skipped_for_time": 0 if viols else len(units) - done,
        "simulated_runs_per_hour": round(runs / max(sim_wall, 1e-9) * 3600),
        "seeds_per_hour": round(done / max(sim_wall, 1e-9) * 3600),
        "simulated_time": f"{stats.get('events', 0)} bytecode-instruction events of the package under test executed under the simulator (the code has no clock)",
        "injected_and_observed": stats,
        "components_real": "all of gftool from /repo's working tree, numpy, scipy, mpmath, numexpr",
        "components_simulated": chk.stub if hasattr(chk, "stub") else
        "caller threads' schedule, user callbacks, numpy's data allocator",
        "known_findings_seen": hits,
    }
    cov.update(getattr(chk, "extra_coverage", dict)())
    ev = {"property": cid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": getattr(chk, "assumptions", []), "wall_s": round(wall, 2), "violations": len(viols)}
    if evidence:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        fd, tmp = tempfile.mkstemp(dir=os.path.join(VERIF, "evidence"))
        with os.fdopen(fd, "w") as f:
            json.dump(ev, f, indent=1)
        os.chmod(tmp, 0o644)
        os.replace(tmp, os.path.join(VERIF, "evidence", f"{cid}.json"))
    print(f"{cid} {tier} seed={seed}: {runs} simulated runs, {len(sigs)} distinct, {done}/{len(units)} units, {wall:.1f} s wall, "
          f"{cpu:.0f} s cpu")
    print(f"  digest {engine.stable_hash((runs, sorted(map(repr, sigs)), sorted(stats.items()))) & 0xFFFFFFFFFFFF:012x}")
    print("  " + ", ".join(f"{k}={v}" for k, v in stats.items()))
    if viols:
        print(f"VIOLATION property={cid} replay={path}")
        return 1
    if problems:
        for u, (kind, text) in problems[:3]:
            print(f"HARNESS {kind} in {u}: {text[-1500:]}")
        return 2
    return 0


def match(known, plan, v):
    for k in known:
        m = k["match"]
        if m.get("class") not in (None, v["viol"][0]):
            continue
        if all(s in repr(plan) or s in v["viol"][1] for s in m.get("contains", [])):
            return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("check")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    if a.check == "setup":
        from . import alloc
        print(alloc.build(force=True))
        os.makedirs(os.path.join(VERIF, "build", "mplconfig"), exist_ok=True)
        sys.exit(0)
    reexec()
    if a.replay:
        sys.exit(replay(a.replay))
    sys.exit(run(a.check, a.tier, a.seed, not a.no_evidence))


if __name__ == "__main__":
    main()
