#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, H)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NA = {}
m = dict(version=1, setup_cmd="python3 run.py --setup", checks=[], not_applicable=[],
         notes="Property-based testing with a choice-sequence engine (src/pbt.h); see DESIGN.md. "
               "Environment: VERIF_JOBS limits the number of processes, VERIF_SCALE multiplies the number of cases.")
for p in props:
    i = p["id"]
    if i in CHECKS:
        s = CHECKS[i]
        m["checks"].append(dict(
            property=i, quick_cmd="VERIF_TIER=quick python3 run.py " + i,
            thorough_cmd="VERIF_TIER=thorough python3 run.py " + i,
            evidence_file="evidence/%s.json" % i,
            technique=s.get("technique", "property-based testing (generated cases, shrinking) against an explicit oracle"),
            level="exploration",
            level_note=s.get("note", "Searches generated cases; absence of a violation is not a proof. Trusts the oracle in src/ and the compiler.")))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, "check under construction")))
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks;", len(m["not_applicable"]), "not claimed")
