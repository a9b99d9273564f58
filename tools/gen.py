#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list in props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE
ROOT = os.path.dirname(HERE)
with open(ROOT + "/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None},
        }) + "\n")
checks = []
for p in PROPS:
    if p["id"] in NOT_APPLICABLE:
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "./check.sh %s quick" % p["id"],
        "thorough_cmd": "./check.sh %s thorough" % p["id"],
        "technique": p["technique"],
        "level": "exploration",
        "level_note": p["note"],
    })
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()],
     "notes": "All checks are generated-input search (pgregory.net/rapid generators and shrinking) over the exported API, the SFTP protocol or the running program; no hooks in /repo are needed."}
with open(ROOT + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
