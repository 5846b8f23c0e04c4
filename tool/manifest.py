#!/usr/bin/env python3
"""Writes MANIFEST.json from the rules that exist and tool/notes.json."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(H + "/tool/notes.json"))
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    n = notes.get(i, {})
    if os.path.exists(H + "/lib/rules/%s.py" % i.lower()):
        checks.append({"property": i, "quick_cmd": "python3 bin/check %s --tier quick" % i, "thorough_cmd": "python3 bin/check %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "technique": n.get("technique", "static analysis: reachability queries on interprocedural exceptional flow graphs built from clang's type-checked syntax trees"),
            "level": n.get("level", "other"), "level_note": n.get("level_note", "Sound only up to the aliasing and library models stated in DESIGN.md; every instance in the current tree is enumerated.")})
    else:
        na.append({"property": i, "reason": n.get("na", "no check built yet")})
json.dump({"version": 1, "setup_cmd": "python3 bin/setup", "checks": checks, "not_applicable": na,
  "notes": "All checks parse /repo's current sources with the clang-18 libTooling extractor in tool/extract.cpp; nothing of /repo is executed."}, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
