#!/usr/bin/env python3
"""seeded.py [ID...] [--all-checks] [--tier=..] [--seed=..]: runs the check of each planted bug's property (or every check) against a scratch copy with it applied"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(os.path.join(ROOT, "seeded")))
    opt = dict(a[2:].split("=") for a in sys.argv[1:] if a.startswith("--") and "=" in a)
    for id in ids:
        meta = json.load(open(os.path.join(ROOT, "seeded", id, "meta.json"), encoding="utf-8"))
        tmp = tempfile.mkdtemp(prefix="seeded-")
        try:
            tree = os.path.join(tmp, "repo")
            subprocess.check_call(["cp", "-a", "/repo", tree])
            subprocess.check_call(["git", "-C", tree, "apply", os.path.join(ROOT, "seeded", id, "patch.diff")])
            props = ["C%02d" % i for i in range(1, 19)] if "--all-checks" in sys.argv else [meta["property"]]
            for p in props:
                t = time.time()
                env = dict(os.environ, VERIF_REPO=tree, VERIF_SEED=opt.get("seed", "1"), VERIF_TIER=opt.get("tier", "quick"))
                r = subprocess.run([sys.executable, "sim/check.py", p], cwd=ROOT, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                m = re.search(r"VIOLATION property=%s.*" % p, r.stdout)
                tail = r.stdout.strip().splitlines()
                print("%-28s %s %-7s %4.0fs %s" % (id, p, "CAUGHT" if r.returncode == 1 and m else "missed" if r.returncode == 0 else "BROKEN rc=%d" % r.returncode,
                                                   time.time() - t, " | ".join(tail[-2:])[:220]))
                sys.stdout.flush()
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    main()
