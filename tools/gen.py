#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py.

A property is claimed when checks/<id>.py exists; otherwise it needs a reason ("na")."""
import json
import os
import sys

sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS  # noqa: E402

root = os.path.dirname(here)
checks, na = [], []
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}) + "\n")
        pid = p["id"]
        if os.path.exists(os.path.join(root, "checks", pid.lower() + ".py")):
            checks.append({"property": pid,
                           "quick_cmd": "./run %s --tier quick" % pid,
                           "thorough_cmd": "./run %s --tier thorough" % pid,
                           "technique": p["tech"], "level": "exploration",
                           "level_note": p["note"]})
        else:
            na.append({"property": pid, "reason": p["na"]})
m = {"version": 1, "setup_cmd": "./run --setup", "checks": checks}
if na:
    m["not_applicable"] = na
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
