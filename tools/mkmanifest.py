"""Writes /verif/MANIFEST.json from the checks and properties.jsonl."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NOTE = {
 "C01": "Seeded sampling of schedules at bytecode granularity inside the package; numpy, scipy and mpmath calls are atomic steps (as under the GIL). No claim for free-threaded builds.",
 "C02": "Sampled calls, histories and fault points; state compared is a fixed list of process-wide settings.",
 "C03": "Sampled histories (with failures, interrupts and overwritten results) before a call; reference is the same call in a pristine process.",
 "C04": "Every array allocation is filled with seeded patterns by a substitute numpy allocator; small scalars and non-array memory are not covered.",
 "C05": "Digests of all caller-owned data around calls that return, fail or are interrupted at sampled points.",
 "C06": "Every callback of every op fails at sampled invocations with sampled exception types; identity of the exception is the oracle.",
 "C07": "Sampled problems, budgets and NaN faults; each returned value is judged by independently written self-consistency equations. Trusts scipy's documented meaning of fatol.",
 "C08": "Sampled interrupts, allocation failures and failing kernels; reference is the fault-free run. Crashes inside numpy's own handling of failed allocations are counted, not judged.",
 "C09": "Sampled consumer programs, sequential and threaded; reference is the solitary use of the same object.",
 "C10": "Sampled logging configurations and switch points; reference is the silent run.",
 "C11": "Sampled calls in eight degraded interpreters; ill-posed problems (sensitive to input rounding) are left out.",
 "C13": "Sampled hostile arguments, erratic callbacks and spoiled kernel answers under a step clock (instructions of the package); time inside numpy, scipy, mpmath is not judged, least squares of non-finite data (LAPACK does not return) is stubbed by an exception.",
 "C14": "Sampled checkpoints (pickle protocols 2-5, copy, deepcopy) of objects, results and exceptions, restored in a pristine process; functions made by the library are out of scope.",
 "C15": "Sampled histories of 24-72 calls (continued to 600-1200 on suspicion), plain, faulted, on own or shared objects; retention below 0.4 things per call is not judged.",
 "C16": "Sampled items, wrong values and points of damage for the stacked arguments listed in sim/c16.py; elements that already react to changes at rounding level are left out; joint quantities (root searches, joint fits, sums) exempt.",
 "C12": "Sampled adversarial occupation functions, bounded-evaluation oracle.",
}
NA = {
 "C20": "Pure mathematical identity of stateless functions: no schedule, clock, fault or I/O in it; simulation adds nothing to evaluating inputs.",
 "C21": "Accuracy of pure functions against each other; nothing for a simulator to schedule or fail.",
 "C22": "Accuracy of pure functions over their inputs; no nondeterminism or fault involved.",
 "C23": "Mathematical identity of a pure function; no nondeterminism or fault involved.",
 "C24": "Numerical identity between pure transforms; no nondeterminism or fault involved.",
 "C25": "Convergence of pure quadratures; no nondeterminism or fault involved.",
 "C26": "Accuracy of a pure sum; no nondeterminism or fault involved.",
 "C27": "Property of a pure least-squares fit; no nondeterminism or fault involved.",
 "C28": "Exactness of a pure rational interpolation (its lazy consumption is decided in C09).",
 "C29": "Exactness of a pure prediction recursion; no nondeterminism or fault involved.",
 "C30": "Algebraic identity of pure decompositions; no nondeterminism or fault involved.",
 "C31": "Agreement of pure formulas with exact diagonalisation; no nondeterminism or fault involved.",
 "C32": "Limits of pure equations (convergence and failure of their solvers are decided in C07).",
 "C33": "Shape semantics of pure functions; no nondeterminism or fault involved.",
}
checks = []
for cid in sorted(NOTE):
    c = getattr(importlib.import_module(f"sim.{cid.lower()}"), cid)
    checks.append({"property": cid, "quick_cmd": f"./check {cid} --tier quick", "thorough_cmd": f"./check {cid} --tier thorough",
                   "evidence_file": f"evidence/{cid}.json", "technique": c.technique, "level": "exploration", "level_note": NOTE[cid]})
m = {"version": 1, "setup_cmd": "./check setup", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks in /repo: the seams are sys.monitoring events on the package's code objects, user callbacks, numpy's allocator interface, "
              "imports, and lock factories; all are installed from /verif. Known findings and repairs: known_findings.jsonl."}
ids = [json.loads(x)["id"] for x in open(os.path.join(V, "properties.jsonl"))]
assert set(ids) == set(NOTE) | set(NA), set(ids) ^ (set(NOTE) | set(NA))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
