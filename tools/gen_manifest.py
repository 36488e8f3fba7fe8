#!/usr/bin/env python3
"""Writes MANIFEST.json for the checks listed here; properties without a check go to not_applicable."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, "tools", "claims.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    if p not in CLAIMS:
        continue
    t, note = CLAIMS[p]
    checks.append(dict(property=p, quick_cmd="python3 check.py " + p, thorough_cmd="env VERIF_TIER=thorough python3 check.py " + p,
                       evidence_file="evidence/%s.json" % p, technique=t, level="exploration", level_note=note))
m = dict(version=1, setup_cmd="python3 lib/build.py", checks=checks,
         not_applicable=[dict(property=p, reason=NOT.get(p, "no check built yet")) for p in props if p not in CLAIMS])
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", [x["property"] for x in m["not_applicable"]])
