#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props_text.py."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
exec(open(os.path.join(HERE, "props_text.py")).read())

lines, checks, na = [], [], []
for p in PROPERTIES:
    rec = {"id": p["id"], "title": p["title"], "statement": p["statement"],
           "quantifier": {"over": p["over"], "text": p["quant"]},
           "why_tests_cant": p["why"],
           "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
    assert len(p["title"]) <= 80, p["id"]
    lines.append(json.dumps(rec))
    if "na" in p:
        na.append({"property": p["id"], "reason": p["na"]})
    else:
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"],
                       "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                       "technique": p.get("technique", TECH), "level": "model_checking", "level_note": p["note"]})
open(os.path.join(V, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
m = {"version": 1, "setup_cmd": "python3 check.py --selfcheck", "checks": checks, "not_applicable": na,
     "notes": NOTES}
open(os.path.join(V, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
