#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties that have a check module in props/."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "TLA+ specification model-checked with TLC; scripts from the specification replayed on the real headers; TLC trace validation"
NOTES = {}
exec(open(os.path.join(V, "tools", "levels.py")).read())
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    if os.path.exists(os.path.join(V, "props", pid.lower() + ".py")):
        checks.append({"property": pid, "quick_cmd": "python3 bin/check.py %s quick" % pid,
                       "thorough_cmd": "python3 bin/check.py %s thorough" % pid,
                       "evidence_file": "evidence/%s.json" % pid, "technique": NOTES[pid][0] if pid in NOTES else TECH,
                       "level": "model_checking", "level_note": NOTES[pid][1] if pid in NOTES else
                       "Specification exhaustively checked within small constants; the code is bound to it by replayed and validated histories."})
    else:
        na.append({"property": pid, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Everything is rebuilt from /repo's working tree by each check; setup only verifies the tools."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
