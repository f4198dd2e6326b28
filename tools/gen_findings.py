import subprocess,sys
P={}  # from fixmap.txt
for l in open("/verif/tools/fixmap.txt") if __import__("os").path.exists("/verif/tools/fixmap.txt") else []:
    if l.strip(): a,b=l.split(); P[a]=b
o=subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s"],text=True)
out=["# Defects of OpenDAX found by the checks. 'fixed:' entries suppress nothing. 'known:' entries are printed as KNOWN-FINDING by the check of that property."]
for l in o.splitlines():
    h,s=l.split(" ",1)
    if not s.startswith("fix:"): continue
    if h not in P: print("NO PROP",l); continue
    out.append("fixed: property=%s %s %s"%(P[h],h,s[5:]))
try: out+=[l.strip() for l in open("/verif/known-findings.txt") if l.startswith("known:")]
except FileNotFoundError: pass
open("/verif/known-findings.txt","w").write("\n".join(out)+"\n")
open("/verif/tools/fixmap.txt","w").write("".join("%s %s\n"%x for x in P.items()))
