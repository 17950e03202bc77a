#!/usr/bin/env python3
"""Runs each check twice - other number of workers, other hash seed - and compares the digests of all runs.

usage: tools/determinism.py [C01 ...]     (the digest covers every run's signature and all counters)
"""
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = sys.argv[1:] or [f"C{i:02d}" for i in range(1, 13)]


def run(cid, seed, workers, hashseed):
    env = dict(os.environ, GFSIM_WORKERS=str(workers), PYTHONHASHSEED=str(hashseed))
    p = subprocess.run(["./check", cid, "--no-evidence", "--seed", str(seed)], cwd=VERIF, env=env, text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    m = re.search(r"digest (\w+)", p.stdout)
    return p.returncode, m and m.group(1)


bad = 0
for cid in CHECKS:
    seed = int(os.environ.get("VERIF_SEED") or 1)
    a, b = run(cid, seed, 8, 0), run(cid, seed, 5, 77)
    same = a == b and a[0] == 0
    bad += not same
    print(cid, "same" if same else "DIFFERENT", a, b, flush=True)
sys.exit(1 if bad else 0)
