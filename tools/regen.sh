#!/bin/bash
# regenerate properties.jsonl and MANIFEST.json and validate them
cd "$(dirname "$0")/.." && python3 tools/props.py && python3-vt - <<'PY'
import json,jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('properties.jsonl'): jsonschema.validate(json.loads(l),s)
jsonschema.validate(json.load(open('MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
PY
