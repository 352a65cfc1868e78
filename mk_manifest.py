#!/usr/bin/env python3
"""Rewrites MANIFEST.json from parts.py."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
from parts import PARTS
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PARTS:
        s = PARTS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=s["technique"], level=s["level"], level_note=s["note"]))
    else:
        na.append(dict(property=i, reason="no check built yet"))
m = dict(version=1, setup_cmd="python3 -c \"import parts\" && g++ --version >/dev/null", hooks=dict(guard="none", enable="no hooks: the harnesses use the public interface of the headers in /repo/include", source_commits=[]),
         checks=checks, not_applicable=na, notes="known findings and repairs: known_findings.txt; design: DESIGN.md")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
