#!/usr/bin/env python3-vt
import json, jsonschema, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = '/root/.vp/'
for l in open(V + '/properties.jsonl'):
    jsonschema.validate(json.loads(l), json.load(open(S + 'PROPERTIES.schema.json')))
jsonschema.validate(json.load(open(V + '/MANIFEST.json')), json.load(open(S + 'MANIFEST.schema.json')))
for f in glob.glob(V + '/evidence/*.json'):
    jsonschema.validate(json.load(open(f)), json.load(open(S + 'EVIDENCE.schema.json')))
print('valid')
