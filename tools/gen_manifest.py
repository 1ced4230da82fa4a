#!/usr/bin/env python3
"""Writes MANIFEST.json from the property list."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"), encoding="utf-8")]
NOTE = {
    "C01": "seeded search over thread interleavings at bytecode granularity (directed preemptions and random walks over code touching shared state); each answer compared with a cold process; simulated locks detect deadlock exactly",
    "C02": "seeded search over request histories from cold processes; each answer compared with a cold process",
    "C03": "seeded injection of interrupts, timeouts, cancellation, memory and recursion exhaustion at bytecode instructions CPython can deliver them at; every later answer compared with a cold process",
    "C04": "seeded nesting of library calls inside library calls at bytecode instructions; both answers compared with a cold process",
    "C05": "seeded real forks while simulated threads are suspended at bytecode instructions of requests and holiday corrections; child's and parent's answers compared with a cold process, corrections checked for linearizability against the executable table",
    "C06": "seeded vandalism of every returned list, dictionary and record between and during other callers' requests; every other answer compared with a cold process",
    "C07": "seeded sequences of corrections and lookups refined against an executable model of the table",
    "C08": "seeded interleavings of corrections and lookups; recorded history checked for linearizability against the executable model",
    "C09": "seeded exceptions inside corrections; history checked for linearizability with the struck correction taking effect wholly or not at all",
    "C10": "seeded sequences of corrections and working-day steps refined against the executable model and an independent day count",
    "C11": "seeded clock settings and jumps at the n-th reading during reverse lookups; answers checked against the definition with independently computed pillars of nearby moments",
    "C12": "the same requests in a canonical and in seeded perturbed environments (real interpreters, simulated clock with jumps); answers must be equal",
    "C13": "seeded interleavings of first chart requests, school choices and readings; identity and linearizability as one register",
    "C14": "seeded orders of repeated readings with other use in between; each reading compared with the first reading of a fresh object",
    "C15": "seeded copies, pickles and transfers to a second real interpreter between and during interrupted, preempted readings; readings of the copies compared with a cold process and the school-choice register of each chart",
    "C16": "seeded endless request histories (with faults, threads and corrections) in one simulated process; growth of reachable memory and of instructions per request measured at checkpoints",
    "C17": "seeded search over schedules and injected exceptions with the rest of the process compared with how it stood at seeded instructions inside calls, after calls and at the end; calls that reach out of the process are recorded and refused by an audit hook",
    "C18": "seeded interleavings of first imports by several threads at bytecode granularity of the module code, with exceptions at seeded instructions and unreadable files, then undisturbed imports; public names and answers compared with a cold process",
}
checks = []
na = []
REASON = "a property of pure single-threaded computation over inputs: no schedule, clock, I/O, fault or history can affect it beyond what C01-C18 already decide, so there is nothing for deterministic simulation with fault injection to vary"
for p in props:
    i = p["id"]
    if i in NOTE:
        checks.append({"property": i, "quick_cmd": "python3 sim/check.py " + i, "thorough_cmd": "python3 sim/check.py %s --thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": "deterministic simulation with fault injection (seeded search)",
                       "level": "exploration", "level_note": NOTE[i]})
    else:
        na.append({"property": i, "reason": REASON})
m = {"version": 1, "setup_cmd": "python3 -B -c 'import sys; sys.path.insert(0, \".\"); from sim import run1; run1.setup_worker()'",
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
