#!/usr/bin/env python3-vt
import json, sys, os
import jsonschema
V = "/verif/"
ps = json.load(open("/root/.vp/PROPERTIES.schema.json"))
ids = []
for l in open(V + "properties.jsonl"):
    x = json.loads(l); jsonschema.validate(x, ps); ids.append(x["id"])
    for f in x["anchors"]["files"]:
        if not os.path.exists("/repo/" + f): print("missing anchor", x["id"], f)
    if x["statement"].count(". ") > 2: print("too many sentences", x["id"])
assert len(set(ids)) == len(ids)
if os.path.exists(V + "MANIFEST.json"):
    m = json.load(open(V + "MANIFEST.json")); jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    c = [k["property"] for k in m["checks"]]; na = [k["property"] for k in m.get("not_applicable", [])]
    print("claimed", len(c), "na", na, "missing", set(ids) - set(c) - set(na), "unknown", set(c + na) - set(ids))
es = json.load(open("/root/.vp/EVIDENCE.schema.json"))
for i in ids:
    f = V + "evidence/%s.json" % i
    if os.path.exists(f): jsonschema.validate(json.load(open(f)), es)
print("ok", len(ids))
