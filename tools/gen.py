#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and vp/spec.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H, os.path.join(H, "tools")]
sys.dont_write_bytecode = True
from vp.spec import SPEC
from props import P, NA, GENERAL
with open(H + "/properties.jsonl", "w") as fp:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        fp.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                             "quantifier": {"over": p["over"], "text": p["q"]},
                             "why_tests_cant": p["why"],
                             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                                         "observe_at": p.get("obs", []), "hook_needed": None}}) + "\n")
checks, na = [], []
for p in P:
    i = p["id"]
    if i in SPEC and i not in NA:
        qs = SPEC[i]["queries"]
        b = "; ".join("%s: %s" % (q.name, q.bounds) for q in qs if q.bounds)
        checks.append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i,
                       "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                       "technique": "symbolic execution of the LLVM IR of the real sources, decided by Z3; counterexamples replayed natively",
                       "level": "model_checking",
                       "level_note": "Bounded. " + (b or p["q"]) + ". " + " ".join(SPEC[i].get("assumptions", [])) + (" " if SPEC[i].get("assumptions") else "") + GENERAL})
    else:
        na.append({"property": i, "reason": NA.get(i, "its check is not written yet")})
json.dump({"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na}, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(P), "properties,", len(checks), "checks, not applicable:", [x["property"] for x in na])
