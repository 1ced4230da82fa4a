#!/usr/bin/env python3
"""Determinism of the simulator: the same seed, run twice with different numbers of workers (so
different hash seeds, zones and processes), must give the same event logs and interleavings."""
import json
import os
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = sys.argv[1:] or ["C%02d" % i for i in range(1, 19)]
bad = 0
for p in props:
    logs = []
    for w in ("8", "5", "1"):
        f = tempfile.mktemp()
        e = dict(os.environ, VERIF_SEED="77", VERIF_WORKERS=w, VERIF_BATCHES="10", VERIF_DUMP=f)
        subprocess.run([sys.executable, os.path.join(V, "sim", "check.py"), p], env=e, stdout=subprocess.DEVNULL, check=False)
        logs.append(json.load(open(f)))
        os.unlink(f)
    n = sum(len(x[0]) for x in logs[0].values())
    same = logs[0] == logs[1] == logs[2]
    if not same:
        bad += 1
        for b in logs[0]:
            for k in (1, 2):
                if logs[0][b] != logs[k].get(b):
                    print("  batch", b, "differs", [i for i, (x, y) in enumerate(zip(logs[0][b][0], logs[k][b][0])) if x != y][:5])
    print(p, n, "runs", "deterministic" if same else "NOT deterministic", flush=True)
sys.exit(1 if bad else 0)
