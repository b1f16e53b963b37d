#!/usr/bin/env python3
"""Writes the second part of DESIGN.md from vp/spec.py, tools/design.txt, tools/seeds.txt and known_findings.json."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H, os.path.join(H, "tools")]
sys.dont_write_bytecode = True
from vp.spec import SPEC
from props import P
note, cur = {}, None
for l in open(H + "/tools/design.txt"):
    l = l.rstrip("\n")
    if len(l) == 3 and l[0].isalpha() and l[1:].isdigit(): cur = note.setdefault(l, [])
    elif l: cur.append(l)
d = open(H + "/DESIGN.md").read()
M = "## Properties and how each is decided\n"
out = [d[:d.index(M)] + M, "\nStatements are in `properties.jsonl`. \"Quick\" bounds come first, \"thorough\" ones in parentheses; a query that fits no\nbound named here is not claimed. `harness/<file>` is the encoding of each query.\n"]
for p in P:
    out.append("\n### %s %s\n\n" % (p["id"], p["title"]))
    out.append("\n".join(note.get(p["id"], [])) + "\n\nQueries:\n")
    seen = {}
    for q in SPEC[p["id"]]["queries"]: seen.setdefault(((q.bounds or p["q"]), q.harness), []).append(q.name)
    for (b, h), n in seen.items(): out.append("- %s (`%s`): %s\n" % (", ".join(n), h, b))
out.append("\n## Findings on the pinned commit\n\nKnown (reported as KNOWN-FINDING, not repaired):\n")
K = json.load(open(H + "/known_findings.json"))
for k in K:
    if k["status"] == "known": out.append("- %s (query %s): %s\n" % (k["property"], k["query"], k["what"]))
out.append("\nRepaired (`fix:` commits in /repo, each found as a counterexample, replayed against the real code):\n\n| property | commit | what failed |\n|---|---|---|\n")
for k in K:
    if k["status"] == "fixed": out.append("| %s | %s | %s |\n" % (k["property"], k["commit"], k["what"].replace("|", "\\|")))
out.append("\n" + open(H + "/tools/false.txt").read())
out.append("\n## Planted bugs\n\nEach was written from a property's statement and the code, confirmed to build, to pass the 46 tests and to fail its demo.\n\n| planted | property | needs | caught by query |\n|---|---|---|---|\n")
for l in open(H + "/tools/seeds.txt"):
    a = l.rstrip("\n").split("\t")
    if len(a) == 4: out.append("| %s | %s | %s | %s |\n" % tuple(a))
open(H + "/DESIGN.md", "w").write("".join(out))
