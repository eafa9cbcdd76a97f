#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (run by hand after editing it)."""
import json, os, sys
sys.dont_write_bytecode = True
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
from props import PROPS, NOTES, NOT_APPLICABLE
with open(H + "/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        q = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
        f.write(json.dumps(q) + "\n")
checks = []
for p in PROPS:
    if not p.get("claimed", True) or not os.path.exists(H + "/checks/%s.py" % p["id"].lower()):
        continue
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"],
                   "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": p["technique"], "level": "model_checking", "level_note": p["note"]})
have = {c["property"] for c in checks} | {n["property"] for n in NOT_APPLICABLE}
na = NOT_APPLICABLE + [{"property": p["id"], "reason": "check not built yet"} for p in PROPS if p["id"] not in have]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na, "notes": NOTES}
with open(H + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(PROPS), "properties", len(checks), "checks", len(na), "not applicable")
