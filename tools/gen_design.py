#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, design_notes.py, checks.py, properties.jsonl and seeded_results.json."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, "tools")]
sys.dont_write_bytecode = True
import checks, design_notes
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
o = [open(os.path.join(HERE, "tools", "design_head.md")).read()]
for p in props:
    c = checks.CHECKS[p["id"]]; n = design_notes.N[p["id"]]; b = c["bounds"]
    o.append("### %s %s\n\n" % (p["id"], p["title"]))
    o.append("* Decided by: %s.\n* Bounds: %s. Thorough: %s.\n* Oracle: %s\n* Beyond the tests: %s\n" % (c["technique"], b["quick"], b["thorough"], n["oracle"], p["why_tests_cant"]))
    if n.get("limits"): o.append("* Limits: %s\n" % n["limits"])
    if n.get("cost"): o.append("* Cost: %s\n" % n["cost"])
    o.append("\n")
o.append(open(os.path.join(HERE, "tools", "design_tail.md")).read())
r = json.load(open(os.path.join(HERE, "tools", "seeded_results.json")))
o.append("\n| change | breaks | reported by |\n|---|---|---|\n")
for k in sorted(r): o.append("| %s: %s | %s | %s |\n" % (k, r[k]["what"], r[k]["property"], r[k]["caught"]))
open(os.path.join(HERE, "DESIGN.md"), "w").write("".join(o))
