#!/usr/bin/env python3
"""Writes MANIFEST.json and levels.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(ROOT, "tools", "claims.py")).read())
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        level, technique, note = CLAIMS[i]
        checks.append(dict(property=i, quick_cmd="python3 run/check.py %s" % i,
                           thorough_cmd="python3 run/check.py %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=technique, level=level,
                           level_note=note))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="bash run/setup.sh", checks=checks, not_applicable=na, notes=NOTES)
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
json.dump({c["property"]: c["level"] for c in checks}, open(os.path.join(ROOT, "levels.json"), "w"), indent=1)
