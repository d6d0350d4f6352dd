#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from checks/ (CHECKS tables) and the table below."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, ROOT); os.chdir(ROOT)
import check
from tools.notes import NOTES, NA, DEFAULT
t = check.table()
props = [json.loads(l) for l in open("properties.jsonl")]
checks = []; na = []
for p in props:
    i = p["id"]
    if i in t:
        tech, level, note = NOTES.get(i, DEFAULT)
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s --thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": level, "level_note": note})
    else: na.append({"property": i, "reason": NA.get(i, "no sound static argument built for this property")})
m = {"version": 1, "setup_cmd": "python3 engine/extract.py", "checks": checks, "not_applicable": na,
     "notes": "All checks decide from the MIR/type checker of /repo's current tree; nothing of /repo is executed. No hooks are needed in /repo. Known and fixed findings: known_findings.jsonl."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", [x["property"] for x in na], "not applicable")
