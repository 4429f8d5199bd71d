#!/opt/veriftools/pyvenv/bin/python
"""Validates properties.jsonl, MANIFEST.json and evidence against the schemas."""
import glob, json, jsonschema, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = '/root/.vp/'
ld = lambda p: json.load(open(p))
ps = ld(S + 'PROPERTIES.schema.json')
for l in open(H + '/properties.jsonl'):
    jsonschema.validate(json.loads(l), ps)
jsonschema.validate(ld(H + '/MANIFEST.json'), ld(S + 'MANIFEST.schema.json'))
for e in glob.glob(H + '/evidence/*.json'):
    jsonschema.validate(ld(e), ld(S + 'EVIDENCE.schema.json'))
print('valid')
