#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of built checks."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{here}/properties.jsonl")]
NOTES = {}
exec(open(f"{here}/tools/notes.py").read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NOTES:
        tech, level, note = NOTES[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                       "technique": tech, "level": level, "level_note": note})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./tools/build.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
open(f"{here}/MANIFEST.json", "a").write("\n")
