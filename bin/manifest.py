#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/checks.py and properties.jsonl."""
import json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "bin"))
from checks import CHECKS
try:
    from checks import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = {}
props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl")) if l.strip()]
ids = [p["id"] for p in props]
m = {"version": 1, "setup_cmd": "python3 bin/build.py helicssim", "checks": [], "not_applicable": []}
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 bin/check.py " + i,
                            "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py " + i,
                            "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet: not claimed")})
for i in CHECKS:
    assert i in ids, i
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
