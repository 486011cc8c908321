#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/props.py (run after adding a check)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "..", "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in props.CHECKS:
        checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 check.py " + i,
                           technique=props.TECHNIQUE.get(i, props.TECH_DEFAULT), level="exploration",
                           level_note=props.NOTES.get(i, props.NOTE_DEFAULT)))
    else:
        na.append(dict(property=i, reason=props.NOT_APPLICABLE.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo: everything is observed through the public interface. Genuine defects found and repaired are listed in known_findings.txt.")
with open(os.path.join(here, "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks), "checks,", len(na), "not applicable")
