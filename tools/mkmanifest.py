#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the checks present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}
exec(open(os.path.join(V, "tools", "levels.py")).read())
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    if os.path.exists(os.path.join(V, "checks", p.lower() + ".py")) and p in NOTE:
        checks.append({"property": p, "quick_cmd": "VERIF_TIER=quick python3 run.py " + p,
                       "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + p,
                       "evidence_file": "evidence/%s.json" % p,
                       "technique": NOTE[p][0], "level": "model_checking", "level_note": NOTE[p][1]})
    else:
        na.append({"property": p, "reason": NA.get(p, "check under construction")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in tla/, checked with TLC; conformance harnesses in harness/ are compiled from /repo's working tree at every run. No hooks in /repo are needed."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
