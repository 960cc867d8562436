#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in props.py."""
import json, os
from props import PROPS, NOT_APPLICABLE, LEVEL_NOTE, NOTES
root = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "hook_needed": None}}) + "\n")
man = {"version": 1, "setup_cmd": "python3 vpbuild.py all",
       "checks": [{"property": p["id"],
                   "quick_cmd": "python3 check.py %s quick" % p["id"],
                   "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": p["tech"], "level": "exploration",
                   "level_note": p.get("note", LEVEL_NOTE)} for p in PROPS],
       "not_applicable": NOT_APPLICABLE, "notes": NOTES}
json.dump(man, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
