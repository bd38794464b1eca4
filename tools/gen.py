#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P, N
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P + N:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                                        "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "python3 tools/rtlib.py setup",
     "checks": [{"property": p["id"], "quick_cmd": "python3 tools/check.py " + p["id"], "thorough_cmd": "python3 tools/check.py " + p["id"],
                 "technique": "static analysis: " + p["technique"], "level": p.get("level", "other"), "level_note": p["note"]} for p in P],
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in N]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
