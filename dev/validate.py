#!/usr/bin/env python3-vt
"""dev helper: validate the registered files against the schemas (python3-vt)"""
import glob, json, jsonschema, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def v(d, s, what):
    for e in jsonschema.Draft202012Validator(json.load(open("/root/.vp/" + s))).iter_errors(d):
        print(what, list(e.path), e.message[:150])
v(json.load(open(V + "/MANIFEST.json")), "MANIFEST.schema.json", "MANIFEST")
for l in open(V + "/properties.jsonl"):
    v(json.loads(l), "PROPERTIES.schema.json", l[:20])
for f in sorted(glob.glob(V + "/evidence/P??.json")):
    v(json.load(open(f)), "EVIDENCE.schema.json", os.path.basename(f))
