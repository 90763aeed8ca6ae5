#!/usr/bin/env python3
"""addprop.py FILE.json: adds or replaces one property line in properties.jsonl (dev helper)"""
import json,sys,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P=V+"/properties.jsonl"
ps={}
for l in open(P):
    if l.strip():
        p=json.loads(l); ps[p["id"]]=p
new=json.load(open(sys.argv[1])) if len(sys.argv)>1 else json.load(sys.stdin)
for p in (new if isinstance(new,list) else [new]): ps[p["id"]]=p
for p in ps.values():
    if isinstance(p["anchors"].get("observe_at"),str): p["anchors"]["observe_at"]=[p["anchors"]["observe_at"]]
    assert len(p["title"])<=80,p["id"]
open(P,"w").write("".join(json.dumps(ps[k])+"\n" for k in sorted(ps)))
