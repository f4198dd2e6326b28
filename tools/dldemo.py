"""runs /repo's daxlua module with the given configuration and scripts against a private tag server (for demonstrations)"""
import subprocess, os, time, struct
from daxwire import *
class Mod:
    def __init__(s, srv, conf, **scripts):
        for n,t in scripts.items(): open(os.path.join(srv.dir,n+".lua"),"w").write(t)
        cf=os.path.join(srv.dir,"daxlua.conf"); open(cf,"w").write(conf.replace("%D",srv.dir))
        s.p=subprocess.Popen([os.path.join(os.getcwd(),"build/src/modules/daxlua/daxlua"),"-U",srv.path,"-C",cf],cwd=srv.dir,stdin=subprocess.DEVNULL,stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL)
    def __enter__(s): return s
    def __exit__(s,*a): s.p.kill(); s.p.wait()
def idx(c,name,wait=10):
    for _ in range(int(wait*20)):
        if not fails(c.byname,name): return struct.unpack("i",c.byname(name)[:4])[0]
        time.sleep(0.05)
    check(False,"tag %s does not appear"%name)
def i4(c,i): return struct.unpack("i",c.read(i,0,4))[0]
def until(f,sec=8):
    for _ in range(int(sec*50)):
        if f(): return True
        time.sleep(0.02)
    return False
