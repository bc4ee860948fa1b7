#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/catalog.py (the one place they are described)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from catalog import P, NA, NOTES
root = os.path.dirname(HERE)
ids = set()
with open(os.path.join(root, "properties.jsonl"), "w") as fh:
    for p in P:
        assert p["id"] not in ids, p["id"]
        ids.add(p["id"])
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        assert p["statement"].count(". ") <= 2, p["id"]
        fh.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
m = {"version": 1,
     "setup_cmd": "python3 -c \"import sys; sys.path.insert(0,'lib'); import facts; facts.load()\"",
     "checks": [], "not_applicable": NA, "notes": NOTES}
for p in P:
    if p["id"] in {n["property"] for n in NA}:
        continue
    m["checks"].append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}",
                        "thorough_cmd": f"python3 check.py {p['id']}",
                        "technique": p["technique"], "level": p.get("level", "other"), "level_note": p["level_note"]})
with open(os.path.join(root, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(root, "properties.jsonl")):
        jsonschema.validate(json.loads(l), s)
    print("valid", len(m["checks"]), "checks")
except ImportError:
    print("written (no jsonschema)")
