#!/bin/bash
# regenerates and validates the metadata
cd "$(dirname "$0")" && python3 mkmeta.py && python3-vt - <<'P'
import json, jsonschema
jsonschema.validate(json.load(open('/verif/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
for l in open('/verif/properties.jsonl'):
    d=json.loads(l); jsonschema.validate(d,json.load(open('/root/.vp/PROPERTIES.schema.json')))
    n=d['statement'].count('. ')+1
    if n>3: print(d['id'],'has',n,'sentences')
import glob
for f in glob.glob('/verif/evidence/C*.json'): jsonschema.validate(json.load(open(f)),json.load(open('/root/.vp/EVIDENCE.schema.json')))
print('ok')
P
