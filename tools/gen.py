#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/table.py.
A property is claimed when props/<id>.py exists."""
import json, os, sys, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from table import PROPS, NOTE

props, checks, na = [], [], []
for p in PROPS:
    props.append({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["forall"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"],
                    "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                    "observe_at": p["observe"], "hook_needed": None}})
    assert len(p["title"]) <= 80, p["id"]
    if os.path.exists(os.path.join(V, "props", p["id"] + ".py")):
        checks.append({"property": p["id"], "quick_cmd": "bin/check " + p["id"],
                       "thorough_cmd": "bin/check " + p["id"],
                       "technique": p["technique"], "level": p.get("level", "model_checking"),
                       "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": p.get("na", "Check not built yet.")})
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na, "notes": NOTE}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in props:
    jsonschema.validate(p, s)
print(len(props), "properties,", len(checks), "claimed")
