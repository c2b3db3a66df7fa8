#!/usr/bin/env python3
"""regenerates properties.jsonl and MANIFEST.json from tools/props.py and the checks that exist"""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "tools"))
from props import P
checks, na = [], []
with open(os.path.join(R, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
        if p["na"]:
            na.append({"property": p["id"], "reason": p["na"]})
        elif not os.path.exists(os.path.join(R, "checks", p["id"].lower() + ".py")):
            na.append({"property": p["id"], "reason": "check not built (yet)"})
        else:
            checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
                           "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                           "technique": "static analysis: " + p["technique"], "level": "other", "level_note": p["note"]})
json.dump({"version": 1, "setup_cmd": "python3 check.py --selftest", "checks": checks, "not_applicable": na},
          open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
