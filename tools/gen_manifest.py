#!/usr/bin/env python3
import json, os, sys
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
sys.path.insert(0, os.path.join(V,"lib"))
import claims
props=[json.loads(l)["id"] for l in open(os.path.join(V,"properties.jsonl"))]
m=dict(version=1, setup_cmd="./setup.sh", checks=[], not_applicable=[], notes=claims.NOTES)
if claims.HOOKS: m["hooks"]=claims.HOOKS
for p in props:
    if p in claims.CLAIMS:
        tech,level,note=claims.CLAIMS[p]
        m["checks"].append(dict(property=p, quick_cmd=f"./check {p}", thorough_cmd=f"./check {p} thorough",
                                technique=tech, level=level, level_note=note))
    else:
        m["not_applicable"].append(dict(property=p, reason=claims.NOT.get(p,"no check built yet")))
json.dump(m, open(os.path.join(V,"MANIFEST.json"),"w"), indent=1)
print(len(m["checks"]),"claimed")
