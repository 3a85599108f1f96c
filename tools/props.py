#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables in tools/proplist.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
from proplist import PROPS, NA, TECH, NOTES
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in PROPS + NA:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p.get("over", ["inputs"]), "text": p["forall"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
        assert len(d["title"]) <= 80, p["id"]
        f.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "python3 setup.py",
     "checks": [], "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA], "notes": NOTES}
for p in PROPS:
    assert os.path.exists(os.path.join(H, "checks", p["id"] + ".py")), p["id"]
    t, n = TECH[p["tech"]]
    m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"],
                        "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                        "evidence_file": "evidence/%s.json" % p["id"],
                        "technique": t, "level": "other", "level_note": p.get("note", "") + n})
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(PROPS), "claimed,", len(NA), "not applicable")
