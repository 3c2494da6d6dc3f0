#!/usr/bin/env python3-vt
import json, os, sys, glob, jsonschema
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = lambda n: json.load(open(f'/root/.vp/{n}.schema.json'))
ps = [json.loads(l) for l in open(f'{H}/properties.jsonl')]
for p in ps: jsonschema.validate(p, S('PROPERTIES'))
m = json.load(open(f'{H}/MANIFEST.json')); jsonschema.validate(m, S('MANIFEST'))
ids = {p['id'] for p in ps}
have = {c['property'] for c in m['checks']} | {n['property'] for n in m['not_applicable']}
assert ids == have, ids ^ have
for f in glob.glob(f'{H}/evidence/*.json'):
    jsonschema.validate(json.load(open(f)), S('EVIDENCE'))
print('ok', len(ps))
