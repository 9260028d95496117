"""Writes MANIFEST.json from the registry and the property list."""
import json
import os
import sys

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from checks import registry

props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.PROPS:
        r = registry.PROPS[i]
        checks.append({"property": i, "quick_cmd": "python3-vt check.py %s quick" % i,
                       "thorough_cmd": "python3-vt check.py %s thorough" % i,
                       "technique": registry.TECH.get(i, registry.TECH[None]),
                       "level": r[1], "level_note": registry.LEVEL_NOTE.get(i, "") or registry.LEVEL_NOTE[None]})
    else:
        na.append({"property": i, "reason": registry.NOT_APPLICABLE.get(i, "no check yet")})
m = {"version": 1, "setup_cmd": "python3-vt -c 'import z3, numpy' && /opt/venv/bin/python -c 'import pandas, numpy, matplotlib'",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks parse /repo's current source on every run and run the real code in /opt/venv as a cross-check. Findings: known_findings.txt."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
