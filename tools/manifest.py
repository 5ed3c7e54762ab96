#!/usr/bin/env python3
"""Writes MANIFEST.json. READY lists the properties that have a check."""
import json, os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
READY = ["C%02d" % i for i in range(1, 30)]
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl")) if l.strip()]
NA = {
    "N01": "Pure function of expression and row: no concurrency, time, I/O or fault can change the result, so simulating schedules and faults decides nothing about it. (Concurrent use of the evaluator is C22.)",
    "N02": "Pure function of the document: no concurrency, time, I/O or fault is involved. (Data sets that arrive over the wire are covered by C07.)",
    "N03": "Pure value conversions: no concurrency, time, I/O or fault is involved. (Values that cross the wire are covered by C01, C02 and C04.)",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in READY:
        checks.append({
            "property": i,
            "quick_cmd": "./run.sh " + i,
            "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + i,
            "technique": "deterministic simulation of the real code with seeded scheduling and fault injection, judged by reference models",
            "level": "exploration",
            "level_note": "Seeded random exploration of schedules, faults and workloads: no violation in the executions run; nothing is proved about the others. Trusts the simulated network, clock and scheduler, the rewriting of the source, and the reference publisher.",
            "evidence_file": "evidence/%s.json" % i,
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "No check yet.")})
json.dump({
    "version": 1,
    "setup_cmd": "./run.sh --build",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks are needed: each check rewrites a scratch copy of /repo's working tree under /verif/.build. Replay a reported violation with ./run.sh --replay FILE.",
}, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
