#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os
from props import PROPS
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS.sort(key=lambda p: p["id"])
with open(root + "/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "hook_needed": None},
        }) + "\n")
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "bash check.sh %s quick" % p["id"],
        "thorough_cmd": "bash check.sh %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["technique"],
        "level": "model_checking",
        "level_note": p["note"],
    } for p in PROPS],
    "not_applicable": [],
    "notes": "No hooks in /repo: the checks compile /repo's sources with a std shim (crates/vstd) that puts hash-iteration order under the explorer's control. Known findings and fixed defects: known_findings.txt.",
}
with open(root + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
