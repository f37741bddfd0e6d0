#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the properties that have a check (mc/cNN.go or in CLAIMED)."""
import json,os,sys
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.join(here,"..")
props=[json.loads(l) for l in open(os.path.join(root,"properties.jsonl"))]
claimed=set(sys.argv[1:])
T={}
exec(open(os.path.join(here,"techniques.py")).read())
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in claimed:
        t,n=T[i]
        checks.append(dict(property=i,quick_cmd="bash run.sh %s quick"%i,thorough_cmd="bash run.sh %s thorough"%i,
          evidence_file="evidence/%s.json"%i,technique=t,level="model_checking",level_note=n))
    else:
        na.append(dict(property=i,reason="check under construction"))
m=dict(version=1,setup_cmd="bash setup.sh",checks=checks,not_applicable=na,
 notes="No hooks in /repo: every check goes through exported API. All changes to /repo are fix: commits, listed in known-findings.jsonl.")
json.dump(m,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1)
open(os.path.join(root,"MANIFEST.json"),"a").write("\n")
