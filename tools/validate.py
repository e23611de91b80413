#!/opt/veriftools/pyvenv/bin/python
"""Validates properties.jsonl, MANIFEST.json and the evidence files against the schemas."""
import json, jsonschema, re, glob
S = json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids = []
for l in open('/verif/properties.jsonl'):
    p = json.loads(l); ids.append(p['id'])
    try: jsonschema.validate(p, S)
    except Exception as e: print(p['id'], str(e)[:300])
    n = len(re.findall(r'[.?!](\s|$)', p['statement']))
    if n > 3: print(p['id'], n, 'sentences')
M = json.load(open('/verif/MANIFEST.json'))
jsonschema.validate(M, json.load(open('/root/.vp/MANIFEST.schema.json')))
E = json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in sorted(glob.glob('/verif/evidence/*.json')):
    try: jsonschema.validate(json.load(open(f)), E)
    except Exception as e: print(f, str(e)[:300])
print(len(ids), 'properties', len(M['checks']), 'checks')
