#!/usr/bin/env python3
"""replay.py FILE: re-execute a recorded violation exactly; exit 1 if it still happens, 0 if not."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))


def main():
    f = json.load(open(sys.argv[1], encoding="utf-8"))
    if f["prog"].get("kind") == "c12":
        from sim import run1, c12
        run1.setup_worker()
        p = f["prog"]
        a, b = c12.run_pair(p["group"], p["envA"], p["planA"], p["envB"], p["planB"])
        d = c12.diff(a, b)
        print(json.dumps({"canonical": a, "perturbed": b, "difference": d}, ensure_ascii=False, indent=1))
        print("REPRODUCED" if d else "NOT REPRODUCED")
        return 1 if d else 0
    env = f.get("env") or {}
    if os.environ.get("VERIF_REPLAY") != "1":
        e = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
        e.update({k: v for k, v in env.items() if v})
        e["VERIF_REPLAY"] = "1"
        os.execve(sys.executable, [sys.executable, "-B"] + [os.path.abspath(__file__)] + [os.path.abspath(sys.argv[1])], e)
    from sim import run1, props, companion
    chk = props.PROPS[f["property"]]()
    run1.setup_worker(chk.cold)
    if chk.companion:
        companion.start()
    ctx = props.Ctx()
    out, viol, err = run1.attempt(chk, f["prog"], ctx)
    companion.stop()
    if err:
        print("harness error:", err)
        return 2
    print(json.dumps({"schedule_and_faults_fired": (out or {}).get("fired"), "violations": viol}, ensure_ascii=False, indent=1))
    if out is not None:
        for r in out["setup"] + out["hist"] + out["final"]:
            print(json.dumps({k: r.get(k) for k in ("c", "i", "op", "inv", "ret", "v")}, ensure_ascii=False)[:600])
    same = out is None or f.get("loghash") in (None, out["loghash"])
    print("same event log as recorded:", same)
    hit = any(v["what"] == f["violations"][0]["what"] for v in viol)
    print("REPRODUCED" if hit else "NOT REPRODUCED")
    return 1 if hit else 0


if __name__ == "__main__":
    sys.exit(main())
