#!/usr/bin/env python3
"""Writes DESIGN.md: tool/design_head.md, one section per property from its rule's own description, planted changes."""
import json, os, sys, ast, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(H + "/tool/notes.json"))
why = json.load(open(H + "/tool/why.json")) if os.path.exists(H + "/tool/why.json") else {}
out = [open(H + "/tool/design_head.md").read()]
caught = json.load(open(H + "/tool/caught.json")) if os.path.exists(H + "/tool/caught.json") else {}
na = []
for l in open(H + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]; f = H + "/lib/rules/%s.py" % i.lower()
    out.append("\n### %s %s\n" % (i, p["title"]))
    if not os.path.exists(f):
        out.append("*Not applicable:* " + notes.get(i, {}).get("na", "no check built yet") + "\n"); continue
    t = ast.parse(open(f).read()); rule = ""
    for s in t.body:
        if isinstance(s, ast.Assign) and getattr(s.targets[0], "id", "") == "RULE": rule = ast.literal_eval(s.value)
    out.append(p["statement"] + "\n")
    out.append("*Decided by* (`lib/rules/%s.py`): %s\n" % (i.lower(), rule.strip()))
    if i in why: out.append("*Beyond tests:* " + why[i] + "\n")
    m = H + "/tool/mutants/%s.py" % i
    if os.path.exists(m):
        ns = {}; exec(open(m).read(), ns); M = ns["MUTANTS"]
        out.append("*Exercised with* %d breaking and %d behaviour-preserving edits (`tool/mutants/%s.py`).\n" % (sum(1 for x in M if x[1] == 1), sum(1 for x in M if x[1] == 0), i))
out.append("\n## Planted changes (`seeded/`) and the checks that catch them\n\nEach builds, passes the stable tests and has a demonstration; `tool/seed.py` makes and verifies them from `tool/seeds/`.\n")
for d in sorted(glob.glob(H + "/seeded/*/meta.json")):
    j = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    out.append("* **%s** (%s): %s *Needs:* %s Caught by: %s." % (n, j["property"], j["what_it_breaks"], j["needs"], caught.get(n, j["property"])))
open(H + "/DESIGN.md", "w").write("\n".join(out) + "\n")
