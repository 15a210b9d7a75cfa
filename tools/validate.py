"""python3-vt tools/validate.py: properties.jsonl and MANIFEST.json against their schemas."""
import json,jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json')); m=json.load(open('/root/.vp/MANIFEST.schema.json'))
e=json.load(open('/root/.vp/EVIDENCE.schema.json'))
import glob
for l in open('/verif/properties.jsonl'):
    d=json.loads(l); jsonschema.validate(d,s)
jsonschema.validate(json.load(open('/verif/MANIFEST.json')),m)
for f in glob.glob('/verif/evidence/C*.json'):
    jsonschema.validate(json.load(open(f)),e)
print('ok')
