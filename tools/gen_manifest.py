#!/usr/bin/env python3
"""writes MANIFEST.json from props.CHECKS and properties.jsonl"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": []}
for i in ids:
    if i in props.CHECKS:
        fn, tech = props.CHECKS[i]
        m["checks"].append({
            "property": i,
            "quick_cmd": "python3 tools/check.py %s quick" % i,
            "thorough_cmd": "python3 tools/check.py %s thorough" % i,
            "technique": "static analysis: " + tech,
            "level": "other",
            "level_note": props.NOTES.get(i, props.NOTE),
        })
    else:
        m["not_applicable"].append({"property": i, "reason": props.NA.get(i, "no check yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
