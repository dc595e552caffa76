#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/*.json and the tables below."""
import json, os, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
NA = {}
if os.path.exists(here + '/tools/not_applicable.json'):
    NA = json.load(open(here + '/tools/not_applicable.json'))
checks, na = [], []
for p in props:
    i = p['id']
    f = f'{here}/checks/{i}.json'
    if os.path.exists(f):
        spec = json.load(open(f))
        q = '; '.join(u['entry'] + ': ' + (u.get('bounds') or 'see harness') for u in spec['units'])
        checks.append({
            "property": i,
            "quick_cmd": f"./gosym.sh check {i} -tier quick",
            "thorough_cmd": f"./gosym.sh check {i} -tier thorough",
            "technique": "bounded symbolic execution of the real code's SSA, decided by SMT (z3), counterexamples replayed natively",
            "level": "model_checking",
            "level_note": "Holds for every value of the symbolic inputs within the stated bounds, nothing outside them. " + q,
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check yet")})
m = {"version": 1, "setup_cmd": "./gosym.sh build", "checks": checks, "not_applicable": na,
     "notes": "Every check rebuilds the engine (cached), reloads /repo's current source, re-encodes it and builds the native replay twin from the same tree. No hooks are added to /repo: harnesses enter through go build overlays."}
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
