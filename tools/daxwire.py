"""minimal wire protocol client for demonstrations: starts /repo's tag server on a private socket"""
import socket, struct, subprocess, os, tempfile, time, shutil, sys
REG,ADD,DEL,GET,LIST,READ,WRITE,MWRITE=1,2,3,4,5,6,7,8
def _port():
    s=socket.socket(); s.bind(("127.0.0.1",0)); p=s.getsockname()[1]; s.close(); return p
class H:
    """a handle: bytes [byte,byte+size) / bits of tag index"""
    def __init__(self,index,byte,size,count,type,bit=0): self.index,self.byte,self.size,self.count,self.type,self.bit=index,byte,size,count,type,bit
    def b(self): return struct.pack("=iIBIII",self.index,self.byte,self.bit,self.count,self.size,self.type)
class Srv:
    def __init__(self, srv=None, args=()):
        self.dir=tempfile.mkdtemp(prefix="daxdemo"); self.path=os.path.join(self.dir,"s"); conf=os.path.join(self.dir,"c.conf")
        open(conf,"w").write("")
        self.p=subprocess.Popen([srv or os.path.join(os.getcwd(),"build/src/server/tagserver"),"-C",conf,"-S",self.path,"-P",str(_port())]+list(args),cwd=self.dir,stdin=subprocess.DEVNULL,stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL)
        for _ in range(200):
            if os.path.exists(self.path):
                try: s=socket.socket(socket.AF_UNIX); s.connect(self.path); s.close(); break
                except OSError: pass
            time.sleep(0.05)
        else: self.stop(); raise SystemExit("server did not start")
    def alive(self): return self.p.poll() is None
    def stop(self):
        self.p.kill(); self.p.wait(); shutil.rmtree(self.dir,ignore_errors=True)
    def __enter__(self): return self
    def __exit__(self,*a): self.stop()
class Err(Exception): pass
class Cl:
    def __init__(self,srv,name=None):
        self.s=socket.socket(socket.AF_UNIX); self.s.settimeout(10); self.s.connect(srv.path); self.ev=[]
        if name: self.rpc(C["MOD_REG"],struct.pack(">II",1000,1)+name.encode()+b"\0")
    def close(self): self.s.close(); time.sleep(0.3)
    def get(self):
        def rd(n):
            b=b""
            while len(b)<n:
                x=self.s.recv(n-len(b))
                if not x: raise Err("closed")
                b+=x
            return b
        size,cmd=struct.unpack(">II",rd(8)); return cmd,rd(size)
    def rpc(self,cmd,payload=b""):
        self.s.sendall(struct.pack(">II",len(payload)+8,cmd)+payload)
        while 1:
            c,d=self.get()
            if c&0x80000000: self.ev.append((c&0x7fffffff,d)); continue
            if c&0x02000000: raise Err(struct.unpack("i",d[:4])[0])
            return d
    def events(self,wait=0.3):
        self.s.settimeout(wait)
        try:
            while 1:
                c,d=self.get(); self.ev.append((c&0x7fffffff,d))
        except (socket.timeout,TimeoutError): pass
        self.s.settimeout(10); e=self.ev; self.ev=[]; return e
    def add(self,name,type,count,attr=0): return struct.unpack("i",self.rpc(C["TAG_ADD"],struct.pack("=III",type,count,attr)+name.encode()+b"\0")[:4])[0]
    def read(self,i,o,n): return self.rpc(C["TAG_READ"],struct.pack("=iII",i,o,n))
    def write(self,i,o,d): return self.rpc(C["TAG_WRITE"],struct.pack("=iI",i,o)+d)
    def mwrite(self,i,o,d,m): return self.rpc(C["TAG_MWRITE"],struct.pack("=iI",i,o)+d+m)
    def dele(self,i): return self.rpc(C["TAG_DEL"],struct.pack("=i",i))
    def byname(self,n): return self.rpc(C["TAG_GET"],b"\x01"+n.encode()+b"\0")
    def byindex(self,i): return self.rpc(C["TAG_GET"],b"\x02"+struct.pack("=i",i))
    def ev_add(self,h,type,data=b""): return struct.unpack("i",self.rpc(C["EVNT_ADD"],struct.pack("=iIIIIIB",h.index,h.byte,h.count,h.type,type,h.size,h.bit)+data)[:4])[0]
    def ev_del(self,i,id): return self.rpc(C["EVNT_DEL"],struct.pack("=ii",i,id))
    def ev_opt(self,i,id,o): return self.rpc(C["EVNT_OPT"],struct.pack("=iiI",i,id,o))
    def cdt(self,d): return struct.unpack("I",self.rpc(C["CDT_CREATE"],d.encode()+b"\0")[:4])[0]
    def map_add(self,s,d): return struct.unpack("i",self.rpc(C["MAP_ADD"],s.b()+d.b())[:4])[0]
    def map_del(self,i,id): return self.rpc(C["MAP_DEL"],struct.pack("=ii",i,id))
    def grp_add(self,hs): return struct.unpack("I",self.rpc(C["GRP_ADD"],bytes([len(hs),0])+b"".join(h.b() for h in hs))[:4])[0]
    def grp_del(self,g): return self.rpc(C["GRP_DEL"],struct.pack("=I",g))
    def grp_read(self,g): return self.rpc(C["GRP_READ"],struct.pack("=I",g))
    def grp_write(self,g,d): return self.rpc(C["GRP_WRITE"],struct.pack("=I",g)+d)
    def atomic(self,h,op,d): return self.rpc(C["ATOMIC_OP"],struct.pack("=iIIIBHH",h.index,h.byte,h.count,h.type,h.bit,op,0)+d)
    def ov_add(self,i,o,d,m): return self.rpc(C["ADD_OVRD"],struct.pack("=iII",i,o,0)+d+m)
    def ov_del(self,i,o,m): return self.rpc(C["DEL_OVRD"],struct.pack("=iI",i,o)+m)
    def ov_get(self,i,o,n): return self.rpc(C["GET_OVRD"],struct.pack("=iII",i,o,n))
    def ov_set(self,i,f): return self.rpc(C["SET_OVRD"],struct.pack("=iB",i,255 if f else 0))
T=dict(BOOL=0x10,BYTE=3,SINT=0x13,CHAR=0x23,WORD=4,INT=0x14,UINT=0x24,DWORD=5,DINT=0x15,UDINT=0x25,REAL=0x35,LWORD=6,LINT=0x16,ULINT=0x26,LREAL=0x46,TIME=0x36)
def fails(f,*a):
    try: f(*a)
    except Err: return True
    return False
def check(c,msg):
    if not c: print("FAIL: "+msg); raise SystemExit(1)
C={}
def _load():
    import re
    for f in ("src/libcommon.h",):
        for l in open(os.path.join(os.getcwd(),f)):
            m=re.match(r"\s*#define\s+MSG_(\w+)\s+(0x[0-9a-fA-F]+|\d+)",l)
            if m: C[m.group(1)]=int(m.group(2),0)
_load()
