#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and checks_table.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks_table import CHECKS
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {}
NOTE = {
}
checks = []
na = []
for p in props:
    i = p["id"]
    if i in CHECKS:
        checks.append({
            "property": i,
            "quick_cmd": "python3 run.py %s" % i,
            "thorough_cmd": "python3 run.py %s thorough" % i,
            "technique": CHECKS[i].get("technique", "property-based testing: structured random generation, shrinking, explicit oracle"),
            "level": "exploration",
            "level_note": CHECKS[i].get("note", "Random structured search against an explicit oracle; see DESIGN.md section %s for generator, oracle and bounds." % i),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "check under construction; not claimed yet")})
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")
