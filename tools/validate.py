#!/usr/bin/env python3-vt
"""Developer helper: validates properties.jsonl, MANIFEST.json and evidence/* against the schemas."""
import json, jsonschema, glob, os
R="/root/.vp/"
s=json.load(open(R+"PROPERTIES.schema.json")); ids=set()
for l in open("/verif/properties.jsonl"):
    d=json.loads(l); jsonschema.validate(d,s); ids.add(d["id"])
    if d["statement"].count(". ")>2: print("long statement", d["id"])
if os.path.exists("/verif/MANIFEST.json"):
    m=json.load(open("/verif/MANIFEST.json")); jsonschema.validate(m,json.load(open(R+"MANIFEST.schema.json")))
    c={x["property"] for x in m["checks"]}; n={x["property"] for x in m.get("not_applicable",[])}
    print("checks",len(c),"na",len(n),"missing",sorted(ids-c-n),"unknown",sorted((c|n)-ids), "both", c&n)
e=json.load(open(R+"EVIDENCE.schema.json"))
for f in sorted(glob.glob("/verif/evidence/*.json")): jsonschema.validate(json.load(open(f)),e)
