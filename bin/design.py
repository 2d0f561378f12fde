#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md (between markers) from properties, checks and seeded bugs."""
import glob, json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "bin"))
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl"))]
out = []
for p in props:
    out.append("### %s %s\n" % (p["id"], p["title"]))
    c = CHECKS.get(p["id"])
    if c:
        out.append(c.get("design", "") + "\n")
        out.append("Level: %s. %s\n" % (c["level"], c["note"].strip()))
    else:
        out.append("Not claimed: %s\n" % NOT_APPLICABLE.get(p["id"], "no check yet"))
seed = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for m in sorted(glob.glob(os.path.join(VERIF, "seeded/*/meta.json"))):
    j = json.load(open(m))
    seed.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), j["property"], j["needs"], j.get("caught_by", "?")))
t = open(os.path.join(VERIF, "bin/DESIGN.in.md")).read()
known = open(os.path.join(VERIF, "bin/KNOWN.in.md")).read() if os.path.exists(os.path.join(VERIF, "bin/KNOWN.in.md")) else ""
t = t.replace("@PROPS@", "\n".join(out)).replace("@SEEDED@", "\n".join(seed)).replace("@KNOWN@", known)
open(os.path.join(VERIF, "DESIGN.md"), "w").write(t)
