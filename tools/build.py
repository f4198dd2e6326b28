"""Builds the components of the code under test (from /repo's working tree) and the harnesses."""
import os, subprocess, hashlib, sys, glob, concurrent.futures as cf
REPO=os.environ.get("MC_REPO","/repo"); VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD=os.environ.get("MC_BUILD",os.path.join(VERIF,"build")); MC=os.path.join(VERIF,"mc")
LUAINC="/usr/include/lua5.4"
WRAPS="""malloc free calloc realloc strdup strndup socket bind listen setsockopt fcntl accept connect getpeername getsockname close shutdown
read write send recv select unlink getpid kill exit abort __assert_fail sigaction signal gettimeofday time clock_gettime sleep usleep nanosleep
pthread_join pthread_detach pthread_self pthread_exit pthread_cancel pthread_equal pthread_attr_init pthread_attr_destroy pthread_attr_setdetachstate
pthread_mutexattr_init pthread_mutexattr_settype pthread_mutexattr_destroy pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock
pthread_mutex_unlock pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast pthread_barrier_init pthread_barrier_wait pthread_barrier_destroy dax_log""".split()
class BuildError(Exception): pass
def run(cmd,**kw):
    r=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**kw)
    if r.returncode: raise BuildError(" ".join(cmd)+"\n"+r.stdout[-6000:])
    return r.stdout
def config_h(d):
    os.makedirs(d,exist_ok=True)
    t=open(os.path.join(REPO,"src/config.h.in")).read()
    out=[]
    for l in t.splitlines():
        if l.startswith("#cmakedefine"):
            n=l.split()[1]; out.append("#define %s 1"%n)
        else: out.append(l.replace("@OpenDAX_VERSION_MAJOR@","0").replace("@OpenDAX_VERSION_MINOR@","9"))
    open(os.path.join(d,"config.h"),"w").write("\n".join(out)+"\n")
def headers_digest():
    h=hashlib.sha256()
    for p in sorted(glob.glob(REPO+"/src/**/*.h",recursive=True)+[REPO+"/src/config.h.in"]):
        h.update(p.encode()); h.update(open(p,"rb").read())
    return h.hexdigest()
_hd=None
def compile_c(srcs,cflags,tag,pool):
    """compile each source (cached on content of the source + all headers + flags)"""
    global _hd
    if _hd is None: _hd=headers_digest()
    od=os.path.join(BUILD,"obj"); os.makedirs(od,exist_ok=True)
    inc=os.path.join(BUILD,"inc"); config_h(inc)
    objs=[];fut=[]
    for s in srcs:
        k=hashlib.sha256(open(s,"rb").read()+_hd.encode()+" ".join(cflags).encode()+tag.encode()+s.encode()).hexdigest()[:20]
        o=os.path.join(od,"%s-%s.o"%(os.path.basename(s),k)); objs.append(o)
        if os.path.exists(o): continue
        fut.append(pool.submit(run,["gcc","-c","-o",o+".tmp%d"%os.getpid(),"-I"+inc,"-I"+REPO+"/src","-I"+REPO+"/src/lib","-I"+REPO+"/src/lib/lua","-I"+LUAINC]+cflags+[s]))
    for f in fut: f.result()
    for o in objs:
        if os.path.exists(o+".tmp%d"%os.getpid()): os.rename(o+".tmp%d"%os.getpid(),o)
    return objs
BASE=["-g","-O1","-U_FORTIFY_SOURCE","-fno-omit-frame-pointer","-fno-optimize-sibling-calls","-fPIC","-w","-D_GNU_SOURCE","-fno-strict-aliasing","-Dpthread_create=mc_pthread_create"]  # libgcc.a defines __wrap_pthread_create itself
ASAN=["-fsanitize=address","-ftrivial-auto-var-init=pattern"]
def wrapflags(extra=(),without=()): return ["-Wl,--wrap=%s"%w for w in WRAPS+list(extra) if w not in without]
def so(out,objs,libs,wraps,san=("-fsanitize=address",)):
    o=os.path.join(BUILD,out); t=o+".tmp%d"%os.getpid()
    run(["gcc","-shared"]+list(san)+["-Wl,-z,norelro","-Wl,-z,now","-Wl,-Bsymbolic","-o",t]+objs+libs+wraps); os.rename(t,o); return o
SRV_DEFS=["-DETC_DIR=\"/nonexistent\"","-DDAX_TAGLIST_SIZE=%s"%os.environ.get("MC_TAGLIST","16"),"-DDAX_TAGLIST_INC=8","-DDAX_DATABASE_SIZE=16"]
def server(pool,out="server.so",defs=(),sqlite=False,flags=ASAN,extra_wraps=(),without=()):
    srcs=sorted(glob.glob(REPO+"/src/server/*.c"))+[REPO+"/src/lib/logger/daxlog.c"]
    fl=BASE+list(flags)+SRV_DEFS+list(defs)+["-Dmain=server_main"]+(["-DHAVE_SQLITE"] if sqlite else [])
    objs=compile_c(srcs,fl,"srv",pool)
    return so(out,objs,["-llua5.4"]+(["-l:libsqlite3.a","-lz"] if sqlite==2 else ["-lsqlite3"] if sqlite else [])+["-lm"],wrapflags(extra_wraps,without))
RACE=["-fsanitize=thread","-ftrivial-auto-var-init=pattern","-fno-builtin"]; RACE_WRAPS="memcpy memmove memset strcpy strncpy strcmp strcasecmp".split()
LUA_STATIC=["-Wl,-u,luaL_openlibs","-l:liblua5.4.a","-lm","-ldl"]; LUA_WRAPS=["_longjmp","longjmp","__longjmp_chk","stdin","stdout","stderr"]
def client(pool,out="client.so",defs=(),extra=(),flags=ASAN,extra_wraps=(),without=()):
    srcs=sorted(glob.glob(REPO+"/src/lib/*.c"))+[REPO+"/src/lib/lua/libdaxlua.c",REPO+"/src/lib/logger/daxlog.c"]
    fl=BASE+list(flags)+["-DETC_DIR=\"/nonexistent\""]+list(defs)
    objs=compile_c(srcs,fl,"cli",pool)+list(extra)+compile_c([MC+"/stdio_shim.c"],["-O1","-fPIC","-w"],"shim",pool)
    return so(out,objs,LUA_STATIC,wrapflags(list(extra_wraps)+LUA_WRAPS,without),san=("-fsanitize=address",) if "-fsanitize=address" in flags else ())
def client_race(pool): return client(pool,"client_race.so",flags=RACE,extra_wraps=RACE_WRAPS)
MB_WRAPS="open stat tcgetattr tcsetattr tcflush printf fprintf puts putchar fwrite".split()
def modbus(pool,out="modbus.so"):
    srcs=sorted(glob.glob(REPO+"/src/modules/modbus/*.c"))+sorted(glob.glob(REPO+"/src/lib/*.c"))+[REPO+"/src/lib/lua/libdaxlua.c",REPO+"/src/lib/logger/daxlog.c"]
    fl=BASE+ASAN+["-DETC_DIR=\"/nonexistent\"","-Dmain=modbus_main","-I"+REPO+"/src/modules/modbus"]
    objs=compile_c(srcs,fl,"mb",pool)+compile_c([MC+"/mb_probe.c"],fl,"mbp",pool)+compile_c([MC+"/stdio_shim.c"],["-O1","-fPIC","-w"],"shim",pool)
    return so(out,objs,LUA_STATIC,wrapflags(MB_WRAPS+LUA_WRAPS))
DL_WRAPS="luaL_newstate printf fprintf puts putchar fwrite".split()
def daxlua(pool,out="daxlua.so"):
    srcs=sorted(glob.glob(REPO+"/src/modules/daxlua/*.c"))+sorted(glob.glob(REPO+"/src/lib/*.c"))+[REPO+"/src/lib/lua/libdaxlua.c",REPO+"/src/lib/logger/daxlog.c"]
    fl=BASE+ASAN+["-DETC_DIR=\"/nonexistent\"","-Dmain=daxlua_main","-I"+REPO+"/src/modules/daxlua"]
    objs=compile_c(srcs,fl,"dl",pool)+compile_c([MC+"/dl_probe.c"],fl,"dlp",pool)+compile_c([MC+"/stdio_shim.c"],["-O1","-fPIC","-w"],"shim",pool)
    return so(out,objs,LUA_STATIC,wrapflags(DL_WRAPS+LUA_WRAPS))
HIST_WRAPS="printf puts putchar dlopen dlsym dlclose sqlite3_open sqlite3_open_v2".split()
def histlog(pool,out="histlog.so"):
    H=REPO+"/src/modules/histlog"; fl=BASE+ASAN+["-DETC_DIR=\"/nonexistent\"","-I"+H]
    objs=compile_c(sorted(glob.glob(H+"/*.c"))+sorted(glob.glob(REPO+"/src/lib/*.c"))+[REPO+"/src/lib/lua/libdaxlua.c",REPO+"/src/lib/logger/daxlog.c"],fl+["-Dmain=histlog_main"],"hist",pool)
    for pre,d in (("pf_","file"),("ps_","sqlite")):
        objs+=compile_c(sorted(glob.glob(H+"/plugins/"+d+"/*.c")),fl+["-I"+H+"/plugins/"+d,"-I"+H+"/plugins"]+["-D%s=%s%s"%(n,pre,n) for n in "init add_tag free_tag write_data flush_data set_timefunc".split()]+["-D%s=mcf_%s"%(n,n) for n in "fopen fclose fflush".split()],pre,pool)
    objs+=compile_c([MC+"/hist_probe.c"],fl,"histp",pool)+compile_c([MC+"/stdio_shim.c"],["-O1","-fPIC","-w"],"shim",pool)
    return so(out,objs,LUA_STATIC+["-l:libsqlite3.a","-lz"],wrapflags(HIST_WRAPS+LUA_WRAPS))
def mqtt(pool,out="mqtt.so"):
    srcs=sorted(glob.glob(REPO+"/src/modules/mqtt/*.c"))+sorted(glob.glob(REPO+"/src/lib/*.c"))+[REPO+"/src/lib/lua/libdaxlua.c",REPO+"/src/lib/logger/daxlog.c"]
    fl=BASE+ASAN+["-DETC_DIR=\"/nonexistent\"","-Dmain=mqtt_main","-I"+REPO+"/src/modules/mqtt"]
    objs=compile_c(srcs,fl,"mq",pool)+compile_c([MC+"/dl_probe.c",MC+"/mqtt_probe.c"],fl,"mqp",pool)+compile_c([MC+"/stdio_shim.c"],["-O1","-fPIC","-w"],"shim",pool)
    return so(out,objs,LUA_STATIC,wrapflags(DL_WRAPS+LUA_WRAPS))
DC_NAMES="printf fprintf puts putchar fputs fputc putc vprintf vfprintf fwrite perror readline add_history using_history read_history write_history stifle_history".split()
def daxc(pool,out="daxc.so"):
    fl=BASE+ASAN+["-DETC_DIR=\"/nonexistent\"","-I"+REPO+"/src/modules/daxc"]
    srcs=[p for p in sorted(glob.glob(REPO+"/src/modules/daxc/*.c")) if os.path.basename(p)!="daxc_db.c"]
    objs=compile_c(srcs,fl+["-Dmain=daxc_main"]+["-D%s=mcd_%s"%(n,n) for n in DC_NAMES],"dc",pool)+compile_c(sorted(glob.glob(REPO+"/src/lib/*.c"))+[REPO+"/src/lib/lua/libdaxlua.c",REPO+"/src/lib/logger/daxlog.c"],fl,"dc",pool)
    objs+=compile_c([MC+"/daxc_probe.c"],fl,"dcp",pool)+compile_c([MC+"/stdio_shim.c"],["-O1","-fPIC","-w"],"shim",pool)
    return so(out,objs,LUA_STATIC,wrapflags(["printf","puts","putchar"]+LUA_WRAPS))
MST_WRAPS="fork execvp execv execve execvpe _exit waitpid sigprocmask pthread_sigmask geteuid getuid getegid getgid setuid setgid setreuid setregid setresuid setresgid initgroups setgroups getpwnam getgrnam fopen fclose printf fprintf puts putchar fwrite".split()
def master(pool,out="master.so"):
    srcs=sorted(glob.glob(REPO+"/src/master/*.c"))+[REPO+"/src/lib/logger/daxlog.c"]
    fl=BASE+RACE+["-DETC_DIR=\"/nonexistent\"","-DPID_FILE_PATH=\"/nonexistent\"","-Dmain=master_main","-I"+REPO+"/src/master"]
    objs=compile_c(srcs,fl,"mst",pool)+compile_c([MC+"/stdio_shim.c"],["-O1","-fPIC","-w"],"shim",pool)
    return so(out,objs,LUA_STATIC,wrapflags(MST_WRAPS+RACE_WRAPS+LUA_WRAPS),san=())
def server_ret(pool): return server(pool,"server_ret.so",sqlite=2)
def harness(name,pool,cflags=(),parts=(),cli=False):
    """C++ harness executable from mc/<name>.cpp + runtime"""
    od=os.path.join(BUILD,"hobj"); os.makedirs(od,exist_ok=True)
    hd=hashlib.sha256(b"".join(open(p,"rb").read() for p in sorted(glob.glob(MC+"/*.h"))+[REPO+"/src/opendax.h",REPO+"/src/libcommon.h"])).hexdigest()
    objs=[];fut=[]
    for s in ["rt.cpp","explore.cpp","srv.cpp"]+(["cli.cpp"] if cli else [])+[x+".cpp" for x in parts]+[name+".cpp"]:
        p=os.path.join(MC,s); k=hashlib.sha256(open(p,"rb").read()+hd.encode()+" ".join(cflags).encode()).hexdigest()[:20]
        o=os.path.join(od,"%s-%s.o"%(s,k)); objs.append(o)
        if not os.path.exists(o): fut.append((pool.submit(run,["g++","-std=c++17","-c","-g","-O1","-Wall","-Wno-unused-function","-Wno-misleading-indentation","-I"+MC,"-I"+REPO+"/src"]+list(cflags)+["-o",o+".tmp%d"%os.getpid(),p]),o))
    for f,o in fut: f.result(); os.rename(o+".tmp%d"%os.getpid(),o)
    open(os.path.join(BUILD,"mc_server.conf"),"w").write("min_buffers = 2\n")
    exe=os.path.join(BUILD,name); t=exe+".tmp%d"%os.getpid()
    run(["g++","-fsanitize=address","-rdynamic","-o",t]+objs+["-ldl","-lpthread"]); os.rename(t,exe); return exe
