#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from suites.CHECKS."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
import suites
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    if p not in suites.CHECKS:
        continue
    s = suites.CHECKS[p]
    checks.append({"property": p, "quick_cmd": f"python3 bin/check.py {p}", "thorough_cmd": f"python3 bin/check.py {p} thorough",
                   "evidence_file": f"evidence/{p}.json",
                   "technique": s.get("technique", "TLA+ specification: TLC model checking, TLC-generated walks on the code, TLC trace validation"),
                   "level": s.get("level", "model_checking"), "level_note": s["note"]})
m = {"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": checks, "not_applicable": []}
missing = [p for p in props if p not in suites.CHECKS]
m["not_applicable"] = [{"property": p, "reason": suites.NOT_APPLICABLE.get(p, "check not built yet")} for p in missing]
m["notes"] = "No hooks: everything is observed through the public API. Specification language: TLA+ (TLC). See DESIGN.md."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(missing), "not claimed")
