#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/plan.py and properties.jsonl"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from plan import PLAN
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p not in PLAN:
        na.append({"property": p, "reason": "no check yet"})
        continue
    c = PLAN[p]
    checks.append({
        "property": p,
        "quick_cmd": f"./check {p}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check {p}",
        "technique": c["technique"],
        "level": c["level"],
        "level_note": c["note"] + " Assumes: " + "; ".join(c["assumptions"]) + ".",
    })
json.dump({"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": na},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
