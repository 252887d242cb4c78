#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of checks."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
import checks
NOTES = json.load(open(os.path.join(ROOT, "tools", "levels.json")))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
man = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": [],
       "notes": "TLA+ with TLC. Each check builds its own harness from /repo/include and its own TLC override, so it needs no setup."}
for p in props:
    i = p["id"]
    if i in checks.CHECKS and i in NOTES:
        man["checks"].append({"property": i, "quick_cmd": "python3 bin/check.py %s quick" % i,
                              "thorough_cmd": "python3 bin/check.py %s thorough" % i,
                              "evidence_file": "evidence/%s.json" % i,
                              "technique": NOTES[i][0], "level": "model_checking", "level_note": NOTES[i][1]})
    else:
        man["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(man["checks"]), "checks")
