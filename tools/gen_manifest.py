#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import checks
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
na = dict(getattr(checks, "NOT_APPLICABLE", {}))
m = dict(version=1, setup_cmd="python3 -c \"import sys; sys.exit(sys.version_info < (3, 6))\" && clang++ --version && g++ --version", checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        b = c["bounds"]["quick"] if isinstance(c["bounds"], dict) else c["bounds"]
        m["checks"].append(dict(property=i, quick_cmd="python3 run.py %s --tier quick" % i, thorough_cmd="python3 run.py %s --tier thorough" % i,
                                evidence_file="evidence/%s.json" % i, technique=c["technique"], level=c["level"],
                                level_note=(c["note"] + " " if c["note"] else "") + "Bounds (quick): " + b))
    else:
        m["not_applicable"].append(dict(property=i, reason=na.get(i, "no check built yet")))
m["notes"] = "Every check compiles harnesses in /verif/h against the headers in /repo (nothing of /repo is changed; no hooks), explores a bounded choice tree exhaustively on the real code, and compares with a reference model. See DESIGN.md."
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
