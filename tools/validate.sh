#!/bin/bash
# Validates MANIFEST.json and properties.jsonl against the schemas.
cd "$(dirname "$0")/.." && python3-vt - <<'P'
import json, jsonschema
jsonschema.validate(json.load(open("MANIFEST.json")), json.load(open("/root/.vp/MANIFEST.schema.json")))
sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open("properties.jsonl"): jsonschema.validate(json.loads(l), sch)
print("valid")
P
