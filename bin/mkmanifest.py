#!/usr/bin/env python3
"""Writes MANIFEST.json from the property list and the budgets."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
from budgets import BUDGETS, NOTE, NOT_APPLICABLE  # noqa: E402
TECH = {"st": "deterministic simulation with fault injection "
              "(single caller thread, seeded histories and faults)",
        "mt": "deterministic simulation of threads "
              "(seeded schedules, own OpenMP and race-detecting runtime)"}
TECH["fl"] = TECH["st"]
checks = []
na = []
for line in open(V + "/properties.jsonl"):
    p = json.loads(line)["id"]
    if p in BUDGETS:
        checks.append({
            "property": p,
            "quick_cmd": "python3 check.py %s quick" % p,
            "thorough_cmd": "python3 check.py %s thorough" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": TECH[BUDGETS[p]["flavour"]],
            "level": BUDGETS[p]["level"],
            "level_note": NOTE[p]})
    else:
        na.append({"property": p, "reason": NOT_APPLICABLE.get(
            p, "no check built yet")})
m = {"version": 1,
     "setup_cmd": "python3 bin/build.py %s" % " ".join(
         sorted({b["flavour"] for b in BUDGETS.values()})),
     "checks": checks, "not_applicable": na,
     "notes": "Every check builds the simulator from /repo's working tree "
              "(no hooks in /repo are needed), searches seeded runs derived "
              "from VERIF_SEED, re-executes every failing seed in a fresh "
              "process, minimises it and writes replays/*.json; "
              "'python3 check.py replay FILE' reproduces it."}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
