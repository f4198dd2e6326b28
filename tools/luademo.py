"""runs a Lua script with /repo's dax package against a private tag server (for demonstrations)"""
import subprocess
from daxwire import *
def lua(script, pre=None):
    with Srv() as s:
        if pre: pre(s)
        f=os.path.join(s.dir,"t.lua"); open(f,"w").write('package.cpath="%s/build/src/lib/lua/?.so"\ndax=require("dax")\ndax.init("demo")\n'%os.getcwd()+script+'\ndax.free()\n')
        p=subprocess.run(["lua",f,"-U",s.path],cwd=s.dir,stdin=subprocess.DEVNULL,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=60)
        print(p.stdout[-600:]); check(p.returncode==0,"the script fails")
