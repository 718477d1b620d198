#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and harness/*/meta.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
na = {}
p = os.path.join(root, 'tools', 'not_applicable.json')
if os.path.exists(p):
    na = json.load(open(p))
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": [], "not_applicable": []}
for line in open(os.path.join(root, 'properties.jsonl')):
    i = json.loads(line)['id']
    f = os.path.join(root, 'harness', i.lower(), 'meta.json')
    if os.path.exists(f):
        d = json.load(open(f))
        m["checks"].append({
            "property": i,
            "quick_cmd": "./check.sh %s quick" % i,
            "thorough_cmd": "./check.sh %s thorough" % i,
            "technique": d.get("technique", "bounded symbolic execution of the Go SSA of /repo, decided by an SMT solver (z3), candidates replayed natively"),
            "level": d.get("level", "other"),
            "level_note": "Holds for every value within the bounds: " + d["bounds"] + ". Outside: " + d["outside"] + ".",
        })
    else:
        m["not_applicable"].append({"property": i, "reason": na.get(i, "no check yet: the harness for it is not built")})
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(m["checks"]), "checks;", len(m["not_applicable"]), "not applicable")
