#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import props
root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, (p["id"], "more than three sentences")
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None},
        }) + "\n")
man = {"version": 1, "setup_cmd": "bash check.sh build", "checks": [], "not_applicable": [{"property": i, "reason": r} for i, r in props.NA],
       "notes": "No hooks: the analyzer reads the unmodified source. Repairs of genuine defects are the fix: commits in /repo, listed in known_findings.txt."}
for p in props.PROPS:
    if p["technique"]:
        man["checks"].append({"property": p["id"], "quick_cmd": "bash check.sh " + p["id"], "thorough_cmd": "bash check.sh " + p["id"],
                              "technique": p["technique"], "level": "other", "level_note": p["note"]})
json.dump(man, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
