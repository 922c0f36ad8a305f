#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (one source for both)."""
import importlib.util
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, root)
spec = importlib.util.spec_from_file_location("props", os.path.join(here, "props.py"))
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
import check  # noqa: E402

have = set(check.registry())
props, checks, na = [], [], []
for p in m.PROPS:
    props.append({"id": p["id"], "title": p["title"], "statement": p["statement"],
                  "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                  "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}})
    assert len(p["title"]) <= 80, p["title"]
    if p["id"] in have and "na" not in p:
        checks.append({"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"],
                       "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"], "technique": p["tech"], "level": "other",
                       "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": p.get("na", "no check built yet")})
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
man = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
       "notes": "Static analysis only; no hooks in /repo. 'level: other' = deductive/dataflow analysis of the current sources; "
                "constructs the engine cannot interpret are reported as undecided in the evidence file."}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
print(len(props), "properties,", len(checks), "checks,", len(na), "not applicable")
missing = have - {p["id"] for p in m.PROPS}
assert not missing, missing
