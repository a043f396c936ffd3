#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py (claimed properties) and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
from checks import CHECKS
sys.path.insert(0, os.path.join(H, "tools")); from notes import NOTES
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 check.py --build-all",
    checks=[], not_applicable=[],
    notes="No hooks in /repo: the checks replace malloc/free/clock_gettime in the object files they build from /repo (objcopy --redefine-sym), use the public amd_malloc/amd_free pointers, and compile the gateways against mock headers in /verif.")
for p in props:
    i = p["id"]
    if i in CHECKS:
        t, n = NOTES[i]
        m["checks"].append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 check.py " + i,
            technique="property-based testing: " + t, level="exploration", level_note=n))
    else:
        m["not_applicable"].append(dict(property=i, reason="check under construction"))
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1); print(len(m["checks"]), "checks")
