#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables props.py (claimed and not-applicable properties)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import CLAIMED, NOT_APPLICABLE
root = os.path.dirname(here)

def row(p):
    return {"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}

allp = sorted(CLAIMED + NOT_APPLICABLE, key=lambda p: p["id"])
ids = [p["id"] for p in allp]
assert len(set(ids)) == len(ids)
for p in allp:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    for f in p["files"]:
        assert os.path.exists(os.path.join("/repo", f)), f
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in allp:
        f.write(json.dumps(row(p)) + "\n")
man = {
    "version": 1,
    "setup_cmd": "bash /verif/check.sh --build",
    "checks": [{"property": p["id"], "quick_cmd": f"bash /verif/check.sh {p['id']}",
                "thorough_cmd": f"VERIF_TIER=thorough bash /verif/check.sh {p['id']}",
                "technique": p["tech"], "level": "other", "level_note": p["note"]}
               for p in sorted(CLAIMED, key=lambda p: p["id"])],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in sorted(NOT_APPLICABLE, key=lambda p: p["id"])],
    "notes": "No hooks: the analyses read /repo's unmodified source. All changes in /repo are fix: commits (see known_findings.txt).",
}
json.dump(man, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(CLAIMED), "claimed,", len(NOT_APPLICABLE), "not applicable")
