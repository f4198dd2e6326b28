#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered engines."""
import json, os, sys
H=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,H)
import props
V=os.path.dirname(H)
ids=[json.loads(l)["id"] for l in open(V+"/properties.jsonl")]
checks=[];na=[]
for i in ids:
    if i in props.ENGINES:
        t,n=props.INFO[i]
        checks.append(dict(property=i,quick_cmd="python3 tools/check.py %s quick"%i,thorough_cmd="python3 tools/check.py %s thorough"%i,
            evidence_file="evidence/%s.json"%i,technique=t,level="model_checking",level_note=n))
    else: na.append(dict(property=i,reason=props.NA.get(i,"Decidable with this technique; its harness is not finished yet, so it is not claimed.")))
json.dump(dict(version=1,setup_cmd="python3 tools/setup.py",checks=checks,not_applicable=na,
  notes="No hooks are compiled into /repo: the harnesses interpose on libc at link time (-Wl,--wrap). fix: commits in /repo are listed in known-findings.txt."),open(V+"/MANIFEST.json","w"),indent=1)
