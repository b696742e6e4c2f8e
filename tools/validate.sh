#!/bin/sh
# Validates the committed descriptions against the schemas.
cd "$(dirname "$0")/.." && python3 tools/manifest.py && python3-vt - <<'P'
import json,jsonschema,glob
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('properties.jsonl'):
    d=json.loads(l); jsonschema.validate(d,s); assert len(d['title'])<=80,d['title']
    for f in d['anchors']['files']: import os; assert os.path.exists("/repo/"+f), f
jsonschema.validate(json.load(open('MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
for f in glob.glob('evidence/*.json'): jsonschema.validate(json.load(open(f)),json.load(open('/root/.vp/EVIDENCE.schema.json')))
print("valid")
P
