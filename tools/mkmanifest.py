#!/usr/bin/env python3
"""Writes MANIFEST.json: every property whose check exists in checks/ is claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = json.load(open(os.path.join(V, "tools", "claims.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(V, "checks", p.lower() + ".py")) and p in T:
        checks.append(dict(property=p, quick_cmd="bin/check " + p, thorough_cmd="bin/check %s --thorough" % p,
                           evidence_file="evidence/%s.json" % p, technique=T[p]["technique"], level="model_checking",
                           level_note=T[p]["note"]))
    else:
        na.append(dict(property=p, reason="check not built yet"))
m = dict(version=1, setup_cmd="bin/setup", hooks=dict(guard="none", enable="no hooks in /repo: the checks use its exported interface only", source_commits=[]),
         checks=checks, not_applicable=na, notes="TLA+ specifications in spec/, conformance driver in harness/, see DESIGN.md")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
