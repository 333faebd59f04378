#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the profiles and the property list."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from gen.profiles import PROFILES
NA = {}
props = [json.loads(x) for x in open(HERE + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROFILES:
        mc = PROFILES[i].get("mc", [])
        note = "TLC validates every recorded call of seeded random programs against the specification (Machine.tla)"
        if mc:
            note += "; TLC exhausts the bounded configuration%s %s, whose exported behaviours are replayed in the code" % ("s" if len(mc) > 1 else "", ", ".join(mc))
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
                       "technique": "TLA+ specification checked with TLC; trace validation of the real code and replay of TLC behaviours",
                       "level": "model_checking", "level_note": note + ". Programs are sampled, not exhaustive; see DESIGN.md."})
    else:
        na.append({"property": i, "reason": NA.get(i, "its part of the specification is not finished yet")})
json.dump({"version": 1, "setup_cmd": "python3 check.py --build", "checks": checks, "not_applicable": na}, open(HERE + "/MANIFEST.json", "w"), indent=1)
