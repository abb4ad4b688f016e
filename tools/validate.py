import json, sys, jsonschema, pathlib
R = pathlib.Path(__file__).resolve().parents[1]
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
ids = []
for l in open(R/'properties.jsonl'):
    p = json.loads(l); jsonschema.validate(p, s); ids.append(p['id'])
assert len(set(ids)) == len(ids)
m = json.load(open(R/'MANIFEST.json'))
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
claimed = [c['property'] for c in m['checks']]; na = [c['property'] for c in m['not_applicable']]
assert sorted(claimed + na) == sorted(ids), set(ids) ^ set(claimed + na)
es = json.load(open('/root/.vp/EVIDENCE.schema.json'))
for f in (R/'evidence').glob('*.json'):
    jsonschema.validate(json.load(open(f)), es)
print('ok', len(ids), 'properties', len(claimed), 'claimed')
