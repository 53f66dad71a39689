import json,sys
from jsonschema import validate
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'): validate(json.loads(l),s)
import os
if os.path.exists('/verif/MANIFEST.json'): validate(json.load(open('/verif/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
print('ok')
