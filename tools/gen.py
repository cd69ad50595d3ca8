#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props/*.json (one file per property)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props, checks, na = [], [], []
for f in sorted(glob.glob(V + "/tools/props/*.json")):
    p = json.load(open(f))
    ck = p.pop("check", None)
    assert len(p["title"]) <= 80, p["title"]
    props.append(p)
    if ck is None or "not_applicable" in ck:
        na.append({"property": p["id"], "reason": (ck or {}).get("not_applicable", "no check built yet")})
        continue
    i = p["id"]
    checks.append({"property": i, "quick_cmd": "./check %s --quick" % i, "thorough_cmd": "./check %s --thorough" % i,
                   "evidence_file": "evidence/%s.json" % i,
                   "technique": ck["technique"], "level": ck.get("level", "model_checking"), "level_note": ck["level_note"]})
open(V + "/properties.jsonl", "w").write("".join(json.dumps(p) + "\n" for p in props))
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks: every check is black-box (che command line, compiled che programs, drivers importing /repo/lib). Specifications are TLA+, checked with TLC."},
          open(V + "/MANIFEST.json", "w"), indent=1)
import jsonschema
S = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in props: jsonschema.validate(p, S)
jsonschema.validate(json.load(open(V + "/MANIFEST.json")), json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(props), "properties", len(checks), "checks")
