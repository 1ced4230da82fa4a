"""A worker: a fresh interpreter with its own hash seed and time zone that simulates batches."""
import sys
import os
import json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import seams, run1, props, companion, engine as E, catalog as C   # noqa: E402


def emit(o):
    sys.__stdout__.write(json.dumps(o, ensure_ascii=True) + "\n")
    sys.__stdout__.flush()


def main():
    job = json.loads(sys.argv[1])
    chk = props.PROPS[job["prop"]]()
    run1.setup_worker(chk.cold)
    if chk.companion:
        companion.start()
    ctx = props.Ctx()
    seed = job["seed"]
    start = seams.real_perf()
    for b in job["batches"]:
        t0 = seams.real_perf()
        if t0 - start > job["soft"]:
            break            # slow machine: report what was explored
        st = {"t": "batch", "b": b, "runs": 0, "nontrivial": [], "inter": [], "fired": {}, "simtime": 0.0, "ops": 0, "errs": 0,
              "clockreads": 0, "jumps": 0, "locks": {}, "steps": 0, "deadlocks": 0, "events": [], "sites": [], "hot": 0, "log": []}
        samples = []
        refs0 = ctx.refs.n
        for i, prog, out, viol, err in run1.run_batch(chk, seed, b, ctx):
            st["runs"] += 1
            if err:
                st["errs"] += 1
                emit({"t": "err", "b": b, "i": i, "err": err, "prog": prog})
                continue
            if out is not None:
                st["inter"].append(out["inter"])
                st["log"].append(out["loghash"])
                if chk.nontrivial(prog, out):
                    import hashlib
                    st["nontrivial"].append(hashlib.sha256(json.dumps([prog["setup"], prog["clients"], out["fired"], out["inter"]]).encode()).hexdigest()[:16])
                for f in out["fired"]:
                    k = f["act"][0] + (":" + f["act"][1] if f["act"][0] == "raise" else "")
                    st["fired"][k] = st["fired"].get(k, 0) + 1
                    st["sites"].append("%s+%d" % (f["code"], f["off"]))
                for r in out["setup"] + out["hist"] + out["final"]:
                    k = "op:" + r["op"][0]
                    st["fired"][k] = st["fired"].get(k, 0) + 1
                    if r.get("wrecked"):
                        st["fired"]["vandalised"] = st["fired"].get("vandalised", 0) + r["wrecked"]
                    if r.get("child"):
                        st["fired"]["fork"] = st["fired"].get("fork", 0) + 1
                st["ops"] += len(out["setup"]) + len(out["hist"]) + len(out["final"])
                st["simtime"] += out["simtime"]
                st["clockreads"] += out["clockreads"]
                st["jumps"] += out["clockjumps"]
                st["steps"] += out["steps"]
                if out["deadlock"]:
                    st["deadlocks"] += 1
                for k, v in out["locks"].items():
                    st["locks"][k] = st["locks"].get(k, 0) + v
                if i == 0 and len(samples) < 1:
                    samples.append({"batch": b, "run": i, "clients": prog["clients"], "setup": prog["setup"][:3], "fired": out["fired"][:6],
                                    "answers": [{"op": r["op"][:2], "v": r["v"]} for r in out["hist"][:2]]})
            if viol:
                emit({"t": "viol?", "b": b, "i": i, "what": viol[0]["what"]})
                # confirm: the same program must fail again
                want = viol[0]["what"]
                ok = 0
                hang = want.startswith("the run does not finish")
                if hang:
                    ok = 1           # `attempt` has run it twice
                for _ in range(0 if hang else 3):
                    o2, v2, e2 = run1.attempt(chk, prog, ctx)
                    if any(v["what"] == want for v in v2):
                        ok += 1
                if ok == 0:
                    emit({"t": "unconfirmed", "b": b, "i": i, "viol": viol, "prog": prog})
                    st["errs"] += 1
                    continue
                p = prog
                if out is not None and prog.get("walk"):
                    p2 = run1.explicit(prog, out)
                    o2, v2, e2 = run1.attempt(chk, p2, ctx)
                    if any(v["what"] == want for v in v2):
                        p = p2
                p, tries = run1.minimise(chk, p, ctx, want)
                o3, v3, e3 = (None, viol, None) if hang else run1.attempt(chk, p, ctx)
                emit({"t": "violation", "b": b, "i": i, "prog": p, "viol": v3 or viol, "confirmed": ok, "tries": tries,
                      "original": prog, "fired": (o3 or {}).get("fired"), "loghash": (o3 or {}).get("loghash"),
                      "env": {"PYTHONHASHSEED": os.environ.get("PYTHONHASHSEED"), "TZ": os.environ.get("TZ")}})
                return
        st["refs"] = ctx.refs.n - refs0
        st["badrefs"] = ctx.refs.bad
        st["hot"] = len(ctx.hot)
        st["changed"] = ctx.changed
        st["samples"] = samples
        st["wall"] = seams.real_perf() - t0
        emit(st)
    companion.stop()
    emit({"t": "end"})


if __name__ == "__main__":
    main()
