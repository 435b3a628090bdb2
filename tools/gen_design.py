#!/usr/bin/env python3
"""Writes /verif/DESIGN.md."""
import json, os, sys, importlib, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "engine"))
man = json.load(open(os.path.join(V, "MANIFEST.json")))
props = {}
for l in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(l); props[d["id"]] = d
T = lambda n: open(os.path.join(V, "tools", n)).read() if os.path.exists(os.path.join(V, "tools", n)) else ""
out = [T("design_intro.md")]
notes = json.loads(T("design_notes.json") or "{}")
out.append("\n## Properties and how each is decided\n")
for c in man["checks"]:
    p = props[c["property"]]; m = importlib.import_module("rules." + p["id"].lower()).META
    out.append("### %s - %s\n" % (p["id"], p["title"]))
    out.append("*Claim.* %s\n" % p["statement"])
    out.append("*Method.* %s. %s\n" % (m["technique"][0].upper() + m["technique"][1:], m["explains"]))
    out.append("*Limits.* %s\n" % m["note"])
    out.append("*Why tests cannot settle it.* %s\n" % p["why_tests_cant"])
    if p["id"] in notes: out.append(notes[p["id"]] + "\n")
out.append("## Not applicable\n")
for n in man["not_applicable"]: out.append("* **%s** (%s): %s" % (n["property"], props[n["property"]]["title"], n["reason"]))
out.append("\n## Planted bugs\n\n| bug | property | needs | caught by |\n|---|---|---|---|")
caught = json.loads(T("catches.json") or "{}")
S = os.path.join(V, "seeded")
for d in sorted(os.listdir(S)):
    f = os.path.join(S, d, "meta.json")
    if not os.path.exists(f): continue
    m = json.load(open(f))
    out.append("| %s | %s | %s Breaks: %s | %s |" % (d, m["property"], m["needs"].rstrip(".").replace("|", "/") + ".", m["what_it_breaks"].replace("|", "/"), ", ".join(caught.get(d, [])) or "nothing"))
out.append("\n" + T("design_trials.md"))
out.append("## Findings\n\nDefects found in the pinned commit and repaired (`fix:` commits), and findings left as they are (`known_findings.txt`):\n")
for l in open(os.path.join(V, "known_findings.txt")):
    if l.startswith(("fixed:", "finding:")): out.append("* " + l.strip())
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
print(len("\n".join(out)))
