#!/usr/bin/env python3
"""mkseed.py ID < spec : makes seeded/ID from a spec
  prop: C01 / needs: ... / breaks: ... / then '@@ file' blocks OLD\n=====\nNEW ..., then '@@demo' python body"""
import sys, os, subprocess, json, shutil
V="/verif"; id=sys.argv[1]; t=sys.stdin.read()
d=V+"/seeded/"+id
head,*secs=t.split("\n@@ ")
meta=dict(l.split(": ",1) for l in head.strip().splitlines())
demo=None; files={}
for s in secs:
    name,body=s.split("\n",1); name=name.strip()
    if name=="demo": demo=body; continue
    if name=="demo.sh": demo=body; continue
    f=files.get(name) or open("/repo/"+name).read()
    for blk in body.split("\n#####\n"):
        o,n=blk.split("\n=====\n") if "\n=====\n" in blk else (blk.split("\n=====")[0],"")
        o=o.strip("\n"); n=n.strip("\n")
        if f.count(o)!=1: print("match count",f.count(o),"in",name,"for:\n"+o); sys.exit(1)
        f=f.replace(o,n) if n else f.replace(o+"\n","")
    files[name]=f
tmp="/tmp/mkseed.%d"%os.getpid()
p=""
for n,f in files.items():
    os.makedirs(os.path.dirname(tmp+"/b/"+n),exist_ok=True); open(tmp+"/b/"+n,"w").write(f)
    r=subprocess.run(["diff","-u","--label","a/"+n,"--label","b/"+n,"/repo/"+n,tmp+"/b/"+n],stdout=subprocess.PIPE,text=True)
    p+="diff --git a/%s b/%s\n"%(n,n)+r.stdout
shutil.rmtree(tmp)
os.makedirs(d,exist_ok=True)
open(d+"/patch.diff","w").write(p)
# original lines?
base=subprocess.check_output("git -C /repo log --format=%h --grep='^fix:' | tail -1",shell=True,text=True).strip()+"^"
fixes=set(subprocess.check_output(["git","-C","/repo","rev-list",base+"..HEAD"],text=True).split())
import re
for n,f in files.items():
    bl=subprocess.check_output(["git","-C","/repo","blame","-s","-l","--abbrev=40",n],text=True).splitlines()
    cur=None;ln=0;orig=0;mine=0;cf=None
    for l in p.splitlines():
        if l.startswith("diff "): cf=l.split(" b/")[1]
        if cf!=n: continue
        m=re.match(r"@@ -(\d+)",l)
        if m: ln=int(m.group(1)); continue
        if l.startswith("---") or l.startswith("+++"): continue
        if l.startswith("-"):
            if bl[ln-1].split()[0].lstrip("^")[:40] in fixes: mine+=1
            else: orig+=1
            ln+=1
        elif not l.startswith("+"): ln+=1
    print(n,"original lines removed/changed:",orig,"lines of fix commits:",mine)
if demo is not None:
    if demo.lstrip().startswith("#!"): open(d+"/demo.sh","w").write(demo.lstrip())
    else:
        shutil.copy(V+"/tools/daxwire.py",d+"/daxwire.py")
        if "luademo" in demo: shutil.copy(V+"/tools/luademo.py",d+"/luademo.py")
        if "dldemo" in demo: shutil.copy(V+"/tools/dldemo.py",d+"/dldemo.py")
        open(d+"/demo.sh","w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec timeout 120 python3 "$(dirname "$0")/demo.py"\n')
        open(d+"/demo.py","w").write("import os, sys, struct, time\nsys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))\nfrom daxwire import *\n"+demo)
    os.chmod(d+"/demo.sh",0o755)
json.dump(dict(property=meta["prop"],needs=meta["needs"],what_it_breaks=meta["breaks"]),open(d+"/meta.json","w"),indent=1)
