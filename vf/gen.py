#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from spec.py and props.py."""
import json, os, sys
VF = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(VF)
sys.path.insert(0, VF)
from spec import SPEC, NOT_APPLICABLE
from props import PROPS
with open(V + "/properties.jsonl", "w") as f:
    for p in SPEC:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "state": p["state"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    for i, t, s, over, text, why, files, _ in NOT_APPLICABLE:
        f.write(json.dumps({"id": i, "title": t, "statement": s, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": files, "state": [], "mechanism": [{"name": "module", "where": files[0]}], "observe_at": [], "hook_needed": None}}) + "\n")
checks, na = [], []
for p in SPEC:
    if p["id"] in PROPS:
        c = PROPS[p["id"]]
        checks.append({"property": p["id"], "quick_cmd": "python3 vf/check.py " + p["id"], "thorough_cmd": "python3 vf/check.py " + p["id"],
            "evidence_file": "evidence/%s.json" % p["id"], "technique": c.get("technique", "stateful property-based testing against a reference model"),
            "level": "exploration", "level_note": c.get("note", "Generated-input search under ASan/UBSan with shrinking; finds violations, does not prove absence.")})
    else:
        na.append({"property": p["id"], "reason": "check not built yet"})
for t in NOT_APPLICABLE:
    na.append({"property": t[0], "reason": t[7]})
json.dump({"version": 1, "setup_cmd": "python3 vf/check.py --build-all", "checks": checks, "not_applicable": na,
           "notes": "VERIF_TIER selects the tier; VERIF_SEED the generator seed. See DESIGN.md."}, open(V + "/MANIFEST.json", "w"), indent=1)
