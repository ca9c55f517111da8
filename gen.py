#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from sa/catalog.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from sa.catalog import PROPS
from sa import core
core.load_rules()
ids = [p["id"] for p in PROPS]
assert len(set(ids)) == len(ids)
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in sorted(PROPS, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["title"]
        assert set(p["over"]) <= {"schedules", "crash_points", "inputs", "programs", "histories", "configurations", "fault_sequences"}
        for fn in p["files"]:
            assert os.path.exists("/repo/" + fn), fn
        a = {"files": p["files"], "mechanism": p["mech"], "hook_needed": None}
        if p["state"]:
            a["state"] = p["state"]
        if p["observe"]:
            a["observe_at"] = p["observe"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
checks, na = [], []
for p in sorted(PROPS, key=lambda p: p["id"]):
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    if p["id"] not in core.CHECKS:
        na.append({"property": p["id"], "reason": "no check has been built for it yet"})
        continue
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"],
                   "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                   "technique": p["technique"], "level": "other", "level_note": p["note"]})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "All checks are static: they parse /repo's current sources with clang and never run them."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable:", [x["property"] for x in na])
