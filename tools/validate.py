"""python3-vt tools/validate.py: properties, manifest and evidence against their schemas."""
import glob
import json
import os

import jsonschema

S = '/root/.vp/%s.schema.json'
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load(f):
    return json.load(open(f))


props = [json.loads(x) for x in open(os.path.join(ROOT, 'properties.jsonl'))]
for d in props:
    jsonschema.validate(d, load(S % 'PROPERTIES'))
    for f in d['anchors']['files']:
        assert os.path.exists('/repo/' + f), (d['id'], f)
man = load(os.path.join(ROOT, 'MANIFEST.json'))
jsonschema.validate(man, load(S % 'MANIFEST'))
assert [c['property'] for c in man['checks']] == [d['id'] for d in props]
for f in glob.glob(os.path.join(ROOT, 'evidence', '*.json')):
    jsonschema.validate(load(f), load(S % 'EVIDENCE'))
print('valid:', len(props), 'properties')
