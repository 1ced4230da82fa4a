#!/usr/bin/env python3
"""confirm.py [ID...]: re-confirms planted bugs against /repo's HEAD: the patch applies, the stable tests pass with it, demo.sh exits 0 without it and nonzero with it"""
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, env=None):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    except subprocess.TimeoutExpired:
        return 124, "timeout"
    return p.returncode, p.stdout


def one(id):
    d = os.path.join(ROOT, "seeded", id)
    tmp = tempfile.mkdtemp(prefix="confirm-")
    try:
        tree = os.path.join(tmp, "repo")
        sh("cp -a /repo %s" % tree, "/")
        shutil.copytree(d, os.path.join(tmp, "demo"))
        rc0, o0 = sh("sh %s/demo/demo.sh" % tmp, tree)
        rc, o = sh("git apply %s/patch.diff" % d, tree)
        if rc:
            return id, "DOES NOT APPLY"
        rct, ot = sh("/opt/venv/bin/python -B -m pytest -q -p no:cacheprovider --rootdir=. -o python_files='*Test.py test_*.py *_test.py' test 2>&1 | tail -5",
                     tree, {"PYTHONHASHSEED": "0", "TZ": "UTC", "PYTEST_DISABLE_PLUGIN_AUTOLOAD": "1"})
        m = re.search(r"(\d+) passed", ot)
        rc1, o1 = sh("sh %s/demo/demo.sh" % tmp, tree)
        good = rc0 == 0 and rc1 not in (0,) and m and int(m.group(1)) >= 225 and not re.search(r"failed|error", ot)
        return id, ("ok" if good else "NOT CONFIRMED") + " demo clean rc=%s patched rc=%s tests %s | %s" % (rc0, rc1, ot.strip().splitlines()[-1:], o1.strip().splitlines()[-1:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ids = sys.argv[1:] or sorted(os.listdir(os.path.join(ROOT, "seeded")))
    with ThreadPoolExecutor(4) as ex:
        for id, r in ex.map(one, ids):
            print("%-28s %s" % (id, r))
            sys.stdout.flush()


if __name__ == "__main__":
    main()
