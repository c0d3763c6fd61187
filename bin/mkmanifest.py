#!/usr/bin/env python3
"""regenerates MANIFEST.json from the registry and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "analysis"))
import specs
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in specs.REG:
        checks.append({
            "property": i,
            "quick_cmd": "python3 bin/check.py %s quick" % i,
            "thorough_cmd": "python3 bin/check.py %s thorough" % i,
            "technique": specs.TECH.get(i, specs.TECHNIQUE),
            "level": "other",
            "level_note": specs.NOTE.get(i, specs.LEVEL_NOTE),
        })
    else:
        na.append({"property": i, "reason": specs.NA[i]})
m = {"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks: /repo is analysed as it is. The only commits in /repo are fix: commits (see known_findings.json)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
