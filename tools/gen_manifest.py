#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the checks present under checks/ and the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
exec(open(os.path.join(ROOT, "tools", "manifest_notes.py")).read())
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    if os.path.exists(os.path.join(ROOT, "checks", pid.lower() + ".py")) and pid in NOTES:
        tech, note = NOTES[pid]
        checks.append({"property": pid, "quick_cmd": "python3 check.py " + pid, "thorough_cmd": "python3 check.py " + pid + " thorough",
                       "technique": tech, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": pid, "reason": NA.get(pid, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "hooks": HOOKS, "notes": "TLA+ specifications in spec/, conformance harness in harness/, see DESIGN.md"}
if not HOOKS: del m["hooks"]
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
