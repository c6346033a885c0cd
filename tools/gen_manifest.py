#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of implemented checks."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
notes = {}
exec(open(f"{root}/tools/notes.py").read(), notes)
checks, na = [], []
for p in props:
    i = p["id"]
    if i in notes["NOTES"]:
        tech, note = notes["NOTES"][i]
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
                           evidence_file=f"evidence/{i}.json", technique=tech, level="model_checking", level_note=note))
    else:
        na.append(dict(property=i, reason=notes["NA"].get(i, "check not built yet")))
m = dict(version=1, setup_cmd="./setup.sh",
         hooks=dict(guard="none", enable="no hooks: every check drives the public API of the unmodified crates", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="Explicit-state exhaustive exploration of the real code over complete bounded input and operation-sequence spaces; see DESIGN.md.")
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
