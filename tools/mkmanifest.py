#!/usr/bin/env python3
"""Writes tools/props.json and MANIFEST.json from tools/claims.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(os.path.join(V, "tools", "claims.py")).read(), ns)
claims, na = ns["CLAIMS"], ns["NOT_APPLICABLE"]
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
props, checks = {}, []
for i in ids:
    if i in na:
        continue
    c = claims[i]
    props[i] = {"contracts": c["contracts"], "level": c["level"], "explanation": c["explanation"], "assumptions": c.get("assumptions", [])}
    checks.append({"property": i, "quick_cmd": "python3 tools/check.py %s quick" % i, "thorough_cmd": "python3 tools/check.py %s thorough" % i,
                   "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
json.dump(props, open(os.path.join(V, "tools", "props.json"), "w"), indent=1)
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in na.items()],
     "notes": "No hooks in /repo: contracts live in /verif/contracts and are checked against /repo's unmodified source."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
