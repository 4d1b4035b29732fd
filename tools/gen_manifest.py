#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from bin/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from checks import CHECKS
from notes import NOTES
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in CHECKS:
        tech, note = NOTES[i]
        checks.append({"property": i, "quick_cmd": "python3 bin/check.py %s quick" % i, "thorough_cmd": "python3 bin/check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": checks, "not_applicable": na,
           "notes": "All checks enumerate executions of the real library code under a deterministic choice explorer (lib/mc.*) with a simulated socket kernel (lib/simk.*); see DESIGN.md."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
