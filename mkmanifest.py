#!/usr/bin/env python3
"""regenerate MANIFEST.json from the table of checks and properties.jsonl"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from dst.checks import CHECKS

props = [json.loads(x) for x in open(os.path.join(ROOT, "properties.jsonl")) if x.strip()]
NA = "a pure function of its arguments: no scheduling, clock, I/O, randomness or multi-party behaviour for a simulator to control, so deterministic simulation with fault injection has nothing to decide"
NOTE = {
    "default": "Seeded search: assurance grows with the number of explored schedules and faults; it is no proof. Real rt1 code runs on simulated processes, threads, queues, locks, clock and signals; the HDF5 container and files are real. Trusts the simulator's model of multiprocessing (see DESIGN.md).",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        checks.append(dict(
            property=i, quick_cmd=f"./check.py {i} --tier quick", thorough_cmd=f"./check.py {i} --tier thorough",
            technique="deterministic simulation with fault injection (seeded search over schedules and faults)",
            level=CHECKS[i]["level"], level_note=NOTE.get(i, NOTE["default"]), evidence_file=f"evidence/{i}.json",
        ))
    else:
        na.append(dict(property=i, reason=NA if i.startswith("N") else "no check has been built yet"))
m = dict(
    version=1,
    setup_cmd="./setup.sh",
    checks=checks, not_applicable=na,
    notes="No hooks in /repo: every seam (multiprocessing, threading, time, signal, open/os, HDFStore, lru_cache) is replaced from /verif/dst when rt1 is imported.",
)
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
