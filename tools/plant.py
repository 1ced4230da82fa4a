#!/usr/bin/env python3
"""plant.py FILE...: author planted bugs from definition files (id, property, needs, breaks, edits, demo); confirms each
in a scratch copy (builds, stable tests pass, demo 0 clean / nonzero patched) and writes seeded/<id>/.
With --check also runs the property's check against the patched copy."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


def sh(cmd, cwd=None, env=None, timeout=1200):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    check = "--check" in sys.argv
    for f in args:
        ns = {}
        exec(open(f, encoding="utf-8").read(), ns)
        id = ns["ID"]
        tmp = tempfile.mkdtemp(prefix="plant-")
        try:
            tree = os.path.join(tmp, "repo")
            sh("cp -a /repo %s" % tree)
            demo = os.path.join(tmp, "demo")
            os.mkdir(demo)
            shutil.copy(os.path.join(HERE, "kit.py"), demo)
            open(os.path.join(demo, "demo.py"), "w", encoding="utf-8").write("from kit import *\n" + ns["DEMO"].lstrip("\n"))
            open(os.path.join(demo, "demo.sh"), "w").write('#!/bin/sh\nexec python3 -B "$(dirname "$0")/demo.py"\n')
            os.chmod(os.path.join(demo, "demo.sh"), 0o755)
            rc0, o0 = sh("sh %s/demo.sh" % demo, tree, timeout=300)
            ok = True
            for path, old, new in ns["EDITS"]:
                p = os.path.join(tree, "lunar_python", path)
                s = open(p, encoding="utf-8").read()
                if s.count(old) != 1:
                    print(id, "EDIT does not match once:", path, s.count(old), old[:60])
                    ok = False
                s = s.replace(old, new)
                open(p, "w", encoding="utf-8").write(s)
            if not ok:
                continue
            _, diff = sh("git diff", tree)
            # the stable tests, in the copy
            rc, o = sh("/opt/venv/bin/python -B -m pytest -q -p no:cacheprovider --rootdir=. -o python_files='*Test.py test_*.py *_test.py' test 2>&1 | tail -5",
                       tree, {"PYTHONHASHSEED": "0", "TZ": "UTC", "PYTEST_DISABLE_PLUGIN_AUTOLOAD": "1"})
            tests = re.search(r"(\d+) passed", o)
            failed = re.search(r"(\d+) failed|error", o)
            rc1, o1 = sh("sh %s/demo.sh" % demo, tree, timeout=300)
            good = rc0 == 0 and rc1 != 0 and tests and int(tests.group(1)) >= 225 and not failed
            print(id, "clean demo", rc0, "| patched demo", rc1, o1.strip()[:200].replace("\n", " "), "| tests", tests and tests.group(0), failed and o[-400:])
            if rc0:
                print(o0[-800:])
            if not good:
                print(id, "NOT KEPT")
                continue
            d = os.path.join(ROOT, "seeded", id)
            shutil.rmtree(d, ignore_errors=True)
            shutil.copytree(demo, d, ignore=shutil.ignore_patterns("__pycache__"))
            open(os.path.join(d, "patch.diff"), "w", encoding="utf-8").write(diff)
            json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]},
                      open(os.path.join(d, "meta.json"), "w"), ensure_ascii=False, indent=1)
            if check:
                rc, o = sh("python3 sim/check.py %s" % ns["PROP"], ROOT, {"VERIF_REPO": tree})
                print(id, ns["PROP"], "CAUGHT" if rc == 1 else "MISSED rc=%d" % rc, o.strip()[-300:])
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        sys.stdout.flush()


if __name__ == "__main__":
    main()
