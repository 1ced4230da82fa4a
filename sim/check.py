#!/usr/bin/env python3
"""check.py ID: decide one property by seeded simulation; see DESIGN.md."""
import sys
import os
import json
import time
import signal
import subprocess
import threading

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
from sim import budget   # noqa: E402

TZS = ("UTC", "Asia/Shanghai", "America/New_York", "Australia/Lord_Howe", "Pacific/Apia", "Asia/Kolkata", "CST-8", "EST5EDT")


def worker_env(n, seed):
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env["PYTHONHASHSEED"] = str((seed * 7919 + n * 104729) % 4294967295)
    env["TZ"] = TZS[n % len(TZS)]
    env["VERIF_REPO"] = os.environ.get("VERIF_REPO", "/repo")
    return env


class Pump(threading.Thread):
    def __init__(self, proc, n, sink):
        super().__init__(daemon=True)
        self.proc, self.n, self.sink = proc, n, sink

    def run(self):
        for line in self.proc.stdout:
            try:
                self.sink(self.n, json.loads(line))
            except ValueError:
                self.sink(self.n, {"t": "noise", "line": line[:500]})


def known_findings(prop):
    """lines 'known: property=<id> class=<what> match=<text>' of /verif/KNOWN_FINDINGS"""
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known:") and ("property=%s " % prop) in line:
                out.append(line)
    return out


def main():
    for f in (sys.stdout, sys.stderr):
        f.reconfigure(errors="backslashreplace")
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    nw = int(os.environ.get("VERIF_WORKERS", "0") or 0) or max(2, min(8, os.cpu_count() or 2))
    nb = budget.batches(prop, tier)
    if os.environ.get("VERIF_BATCHES"):
        nb = int(os.environ["VERIF_BATCHES"])
    t0 = time.time()
    state = {"viol": None, "errs": [], "unconf": [], "batches": [], "end": 0, "noise": []}
    lock = threading.Lock()
    procs = []

    def sink(n, m):
        with lock:
            t = m.get("t")
            if t == "batch":
                m["w"] = n
                state["batches"].append(m)
            elif t == "violation":
                if state["viol"] is None:
                    state["viol"] = m
            elif t == "err":
                state["errs"].append(m)
            elif t == "unconfirmed":
                state["unconf"].append(m)
            elif t == "end":
                state["end"] += 1
            elif t == "noise":
                state["noise"].append(m)

    script = "c12.py" if prop == "C12" else "worker.py"
    for n in range(nw):
        job = {"prop": prop, "seed": seed, "tier": tier, "batches": list(range(n, nb, nw)), "soft": budget.soft_cap(tier)}
        if not job["batches"]:
            continue
        flags = ["-X", "faulthandler"] if os.environ.get("VERIF_DEBUG") else []
        p = subprocess.Popen([sys.executable, "-B"] + flags + [os.path.join(HERE, script), json.dumps(job)], stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE if not os.environ.get("VERIF_DEBUG") else None,
                             env=worker_env(n, seed), text=True, cwd="/", start_new_session=True)
        procs.append(p)
    pumps = [Pump(p, n, sink) for n, p in enumerate(procs)]
    for p in pumps:
        p.start()
    errtxt = [b"" for _ in procs]

    def drain(i, p):
        if p.stderr is not None:
            errtxt[i] = p.stderr.read()[-3000:]
    for i, p in enumerate(procs):
        threading.Thread(target=drain, args=(i, p), daemon=True).start()
    cap = budget.wall_cap(tier)
    timed_out = False
    while any(p.poll() is None for p in procs):
        time.sleep(0.05)
        if state["viol"] is not None:
            # take other workers' findings of the same moment into account no further
            break
        if time.time() - t0 > cap:
            timed_out = True
            break
    for p in procs:
        if p.poll() is None:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
    for p in procs:
        p.wait()
    for p in pumps:
        p.join(5)
    wall = time.time() - t0
    rc = 0
    out_lines = []
    bs = sorted(state["batches"], key=lambda b: b["b"])
    runs = sum(b["runs"] for b in bs)
    v = state["viol"]
    known = known_findings(prop)
    for k in known:
        out_lines.append("KNOWN-FINDING: " + k[len("known:"):].strip())
    if v is not None:
        d = os.path.join(VERIF, "out", "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-seed%d-b%d-r%d.json" % (prop, seed, v["b"], v["i"]))
        with open(path, "w", encoding="utf-8") as f:
            json.dump({"property": prop, "seed": seed, "batch": v["b"], "run": v["i"], "env": v.get("env"), "prog": v["prog"],
                       "violations": v["viol"], "fired": v.get("fired"), "loghash": v.get("loghash"), "original": v.get("original")}, f, indent=1, ensure_ascii=False)
        out_lines.append("what: " + json.dumps(v["viol"][0], ensure_ascii=False)[:1500])
        out_lines.append("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
    else:
        bad = []
        if timed_out:
            bad.append("wall cap of %ds reached after %d runs" % (cap, runs))
        for i, p in enumerate(procs):
            if p.returncode not in (0, -9):
                bad.append("worker %d exited %s: %s" % (i, p.returncode, errtxt[i]))
        if state["end"] != len(procs) and not timed_out:
            bad.append("%d of %d workers finished" % (state["end"], len(procs)))
        nerr = len(state["errs"])
        if nerr:
            bad.append("%d runs failed inside the harness: %s" % (nerr, state["errs"][0]["err"][:1500]))
        if len(state["unconf"]) > max(2, runs // 50):
            bad.append("%d runs did not repeat" % len(state["unconf"]))
        if len(bs) < max(1, nb // 8):
            bad.append("only %d of %d batches done" % (len(bs), nb))
        badrefs = sum(b.get("badrefs", 0) for b in bs)
        if bad:
            rc = 2
            out_lines += ["ERROR: " + x for x in bad]
    for u in state["unconf"]:
        out_lines.append("UNCONFIRMED b=%d i=%d %s" % (u["b"], u["i"], json.dumps(u["viol"])[:400]))
    write_evidence(prop, tier, seed, bs, wall, v, state, nw, nb)
    if os.environ.get("VERIF_DUMP"):
        with open(os.environ["VERIF_DUMP"], "w") as f:
            json.dump({str(b["b"]): [b["log"], b["inter"]] for b in bs}, f)
    for l in out_lines:
        print(l)
    print("%s %s seed=%d: %d runs in %.1fs, %s" % (prop, tier, seed, runs, wall, {0: "held", 1: "VIOLATED", 2: "no answer"}[rc]))
    return rc


def write_evidence(prop, tier, seed, bs, wall, viol, state, nw, nb):
    from sim import budget
    runs = sum(b["runs"] for b in bs)
    nt = set()
    inter = set()
    fired = {}
    sites = set()
    changed = set()
    for b in bs:
        nt.update(b["nontrivial"])
        inter.update(b["inter"])
        sites.update(b.get("sites", []))
        changed.update(b.get("changed") or [])
        for k, n in b["fired"].items():
            fired[k] = fired.get(k, 0) + n
    samples = []
    for b in bs:
        samples += b.get("samples") or []
    samples = samples[:3]
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(nt),
        "rule": budget.RULES[prop],
        "samples": samples,
        "operations": sum(b["ops"] for b in bs),
        "reference_answers_computed": sum(b.get("refs", 0) for b in bs),
        "seeds": len(bs),
        "seeds_planned": nb,
        "runs_per_hour": int(runs / wall * 3600) if wall > 0 else 0,
        "seeds_per_hour": int(len(bs) / wall * 3600) if wall > 0 else 0,
        "simulated_seconds_covered": round(sum(b["simtime"] for b in bs), 1),
        "clock_readings": sum(b["clockreads"] for b in bs),
        "faults_and_actions_fired": {k: fired[k] for k in sorted(fired)},
        "clock_jumps": sum(b["jumps"] for b in bs),
        "distinct_interleavings": len(inter),
        "interleaving_measure": "distinct sequences of (client, operation, code object, bytecode offset, next client) at which control changed hands",
        "distinct_instruction_sites_hit": len(sites),
        "instrumented_instructions_executed": sum(b["steps"] for b in bs),
        "lock_operations": {k: sum(b["locks"].get(k, 0) for b in bs) for k in ("acquire", "contended", "release")},
        "state_found_shared_between_calls": sorted(changed),
        "unconfirmed": len(state["unconf"]),
        "workers": nw,
        "real_components": "all of lunar_python (unmodified, /repo working tree), CPython 3.12 threads (parked, one at a time), os.fork, garbage collector",
        "stub_components": "threading locks (SimLock/SimRLock), clocks (datetime.now/today, time.*), who runs next",
    }
    if prop == "C12":
        for k in ("distinct_instruction_sites_hit", "instrumented_instructions_executed", "lock_operations", "state_found_shared_between_calls"):
            cov.pop(k)
        cov["distinct_environments"] = cov.pop("distinct_interleavings")
        cov["interleaving_measure"] = "distinct (interpreter settings, plan of clock, jumps, zone, locale, directory, random state, collections)"
        cov["real_components"] = "all of lunar_python (/repo working tree), real CPython interpreters started with the environment under test, real time zone database, locale, garbage collector and hash randomisation"
        cov["stub_components"] = "clocks (datetime.now/today, time.*), threading locks"
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": round(wall, 2),
          "violations": 1 if viol else 0,
          "assumptions": budget.ASSUMPTIONS}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.tmp" % prop)
    with open(tmp, "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    os.replace(tmp, os.path.join(d, prop + ".json"))


if __name__ == "__main__":
    sys.exit(main())
