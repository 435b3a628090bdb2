#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the rule modules."""
import json, os, sys, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "engine"))
NA = {
    "R01": "Equality of program results across a save/load quantifies over every program and every point of interruption; a static argument would need full functional equivalence of interpreter runs. The statically decidable part (coverage, symmetry, validation, checked stream results) is claimed as S01, S02 and S03.",
    "R02": "Functional correctness of every instruction sequence against prose in the manual has no static oracle here; the statically decidable parts (stack effects, jump patching, scopes, arithmetic guards, handled operators) are claimed as V02, V05, C02 and C03.",
}
PENDING = "Not claimed: no sound static check has been finished for this property yet."
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    f = os.path.join(V, "engine", "rules", p.lower() + ".py")
    if os.path.exists(f) and p not in NA:
        m = importlib.import_module("rules." + p.lower()).META
        checks.append({"property": p, "quick_cmd": "python3 engine/check.py " + p, "thorough_cmd": "python3 engine/check.py %s --thorough" % p,
                       "technique": m["technique"], "level": m["level"], "level_note": m["note"]})
    else:
        na.append({"property": p, "reason": NA.get(p, PENDING)})
json.dump({"version": 1, "setup_cmd": "python3 engine/setup.py", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
