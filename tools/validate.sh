#!/bin/bash
# validates properties.jsonl and MANIFEST.json against the schemas (development only)
python3-vt - <<'P'
import json,jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('/verif/properties.jsonl'): jsonschema.validate(json.loads(l),sch)
jsonschema.validate(json.load(open('/verif/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json'))); print("valid")
P
