#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the check files present"""
import json, os, sys

H = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
TECH = "bounded symbolic execution of the traced jaxpr of the real code + z3"
NOTE = ("z3 decides each obligation for all inputs within the stated bounds; assumes floats behave as exact reals up to the stated "
        "tolerance, special functions as uninterpreted symbols with the listed axioms, and the jaxpr interpreter (validated on "
        "concrete runs each time). Counterexamples are replayed on the real code before being reported.")
OV = {}
p = os.path.join(H, "manifest_overrides.json")
if os.path.exists(p):
    OV = json.load(open(p))
checks, na = [], []
for x in props:
    i = x["id"]
    if os.path.exists(os.path.join(H, "checks", i.lower() + ".py")) and i not in OV.get("disabled", {}):
        checks.append({"property": i, "quick_cmd": "/opt/venv/bin/python check.py %s --tier quick" % i,
                       "thorough_cmd": "/opt/venv/bin/python check.py %s --tier thorough" % i,
                       "technique": OV.get("technique", {}).get(i, TECH), "level": "other",
                       "level_note": OV.get("note", {}).get(i, NOTE)})
    else:
        na.append({"property": i, "reason": OV.get("disabled", {}).get(i, "no check has been built for it yet")})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python selftest.py", "checks": checks, "not_applicable": na,
     "notes": "Solver-based checking only; no hooks in /repo."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")
