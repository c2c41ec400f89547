#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: run `python3 tools/props.py` after editing."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, CHECKS, NA = [], [], []

def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, observe=None, state=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
         "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = state
    P.append(d)
    if technique:
        CHECKS.append({"property": id, "quick_cmd": "python3 checks/%s.py" % id, "thorough_cmd": "VERIF_TIER=thorough python3 checks/%s.py" % id,
                       "evidence_file": "evidence/%s.json" % id, "technique": technique, "level": "model_checking", "level_note": note})

exec(open(os.path.join(V, "tools", "props_data.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d) + "\n")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 tools/selfcheck.py", "checks": CHECKS, "not_applicable": NA,
               "notes": "No hooks in /repo are needed: every check drives the public interfaces of palm, copra, cocogen and the code cocogen generates. Each check builds what it needs from /repo's working tree in a scratch directory it removes."}, f, indent=1)
try:
    import jsonschema
    for d in P: jsonschema.validate(d, json.load(open("/root/.vp/PROPERTIES.schema.json")))
    jsonschema.validate(json.load(open(os.path.join(V, "MANIFEST.json"))), json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    print("jsonschema not available: not validated")
print(len(P), "properties", len(CHECKS), "checks")
for d in P:
    for f in d["anchors"]["files"]: assert os.path.exists(os.path.join("/repo", f)), f
