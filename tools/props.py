"""which components each property's check needs, and how it is described in the manifest"""
import os, build
import concurrent.futures as cf
_inner=cf.ThreadPoolExecutor(8)
SRV_PARTS=["s_data","s_event","s_feat","s_proto"]
def srv(prop):
    def f(pool):
        a=pool.submit(build.server,_inner); b=pool.submit(build.harness,"h_srv",_inner,(),SRV_PARTS)
        a.result(); return [b.result(),prop]
    f.key="h_srv"
    return f
CLI_PARTS=["c_names","c_cache","c_conv","c_opt","c_lua","c_log"]
def cli(prop):
    def f(pool):
        a=pool.submit(build.server,_inner); c=pool.submit(build.client,_inner); b=pool.submit(build.harness,"h_cli",_inner,(),CLI_PARTS,True)
        l=pool.submit(build.client,_inner,"client_log.so",without=("dax_log",)) if prop=="C31" else None
        a.result(); c.result(); l and l.result(); return [b.result(),prop]
    f.key="h_cli"+("_log" if prop=="C31" else "")
    return f
def conc(prop):
    def f(pool):
        a=pool.submit(build.server,_inner); c=pool.submit(build.client_race,_inner); b=pool.submit(build.harness,"h_conc",_inner,(),["conc","c_conc"],True)
        a.result(); c.result(); return [b.result(),prop]
    f.key="h_conc"
    return f
def ret(prop):
    def f(pool):
        a=pool.submit(build.server_ret,_inner); b=pool.submit(build.harness,"h_ret",_inner)
        a.result(); return [b.result(),prop]
    f.key="h_ret"
    return f
MB_PARTS=["mb","m_slave","m_master"]
def mb(prop):
    def f(pool):
        a=pool.submit(build.server,_inner); c=pool.submit(build.modbus,_inner); b=pool.submit(build.harness,"h_mb",_inner,(),MB_PARTS)
        a.result(); c.result(); return [b.result(),prop]
    f.key="h_mb"
    return f
ENGINES={p:srv(p) for p in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C14 C15 C19".split()}
ENGINES.update({p:cli(p) for p in "C12 C17 C18 C22 C24 C25 C31 C32".split()})
SRV_T="explicit-state exploration of the real tag server (complete memory snapshot/restore, state hashing) in lock step with a reference model"
SRV_N=("Every operation sequence up to the stated depth over the stated alphabet is executed on the real server code, compiled from /repo with ASAN, through its wire protocol; each reply, "
 "notification and a full sweep of all observable data is compared with the reference model. Trusted: the model, the interposed libc/socket/clock layer, the finite alphabets and depths; hash collisions (64 bit).")
CLI_T="explicit-state exploration of the real client library connected to the real tag server (complete memory snapshot/restore of both) against a reference model"
CLI_N=("Every call of the client library within the stated alphabet and depth is executed on the real library, compiled from /repo with ASAN, talking to the real server over a virtual transport in one explored system; results, buffers and the server's "
 "data (read over a second, independent wire connection) are compared with a reference model. Trusted: the model, the interposed libc/socket/clock/thread layer, the finite alphabets and depths.")
INFO={p:(SRV_T,SRV_N) for p in ENGINES}
INFO.update({p:(CLI_T,CLI_N) for p in "C12 C17 C18 C22 C24 C25 C31 C32".split()})
ENGINES["C16"]=conc("C16")
INFO["C16"]=("stateless/stateful exploration of all thread schedules (preemption bounded), transport faults and crash points of the real multithreaded client library against the real tag server, with state hashing and a lock-set pass that adds racy accesses as scheduling points",
 "Every schedule of the application threads and of the library's own connection thread within the stated preemption and fault budget is executed on the real library code connected to the real server in one explored system; scheduling points are all synchronisation, I/O and clock calls plus every "
 "memory access the lock-set pass finds racy. Each result, buffer and callback is compared with what the calls may return. Trusted: the scenarios and their oracles, the controlled scheduler and the interposed libc/socket/clock layer; sequentially consistent memory; hash collisions (64 bit).")
MB_T="explicit-state exploration of the real Modbus module (complete memory snapshot/restore of module threads, client library and tag server) against a reference model, with a simulated peer on TCP and serial lines as the environment"
MB_N=("Every request, reply, delivery pattern, register access and fault sequence within the stated alphabet and depth is executed on the whole real module, compiled from /repo with ASAN and configured through its own Lua configuration, connected to the real tag server in one explored system; frames, "
 "tags and counters are compared with a reference model of the Modbus standard. Trusted: the model, the virtual TCP/serial/clock/thread layer, a deterministic thread order (the schedules are C16's subject), the finite alphabets and depths; hash collisions (64 bit).")
for _p in ("C20","C21"): ENGINES[_p]=mb(_p); INFO[_p]=(MB_T,MB_N)
DL_PARTS=["dl","d_sched","d_glob","d_hist","d_mqtt","d_cmd"]
def dl(prop):
    def f(pool):
        a=pool.submit(build.server,_inner); c=pool.submit(build.daxlua,_inner); b=pool.submit(build.harness,"h_dl",_inner,(),DL_PARTS)
        a.result(); c.result(); return [b.result(),prop]
    f.key="h_dl"
    return f
DL_T="explicit-state exploration of the real daxlua module with its interpreters and threads (complete memory snapshot/restore) and stateless/stateful exploration of its thread schedules (preemption bounded, state hashing), connected to the real tag server, against a reference model"
DL_N=("Every operation sequence within the stated depth, and every schedule of the module's threads within the stated preemption bound, is executed on the whole real module, compiled from /repo with ASAN and configured through its own Lua configuration, connected to the real tag server in one explored system with a virtual clock; what every script saw and when it ran, the tags and the status tags are compared with a model. "
 "Trusted: the model, the controlled scheduler (threads switch at synchronisation, socket and sleep calls only) and the interposed libc/socket/clock layer, the finite alphabets and depths.")
for _p in ("C26","C27"): ENGINES[_p]=dl(_p); INFO[_p]=(DL_T,DL_N)
def hist(prop):
    def f(pool):
        a=pool.submit(build.server,_inner); c=pool.submit(build.histlog,_inner); b=pool.submit(build.harness,"h_dl",_inner,(),DL_PARTS)
        a.result(); c.result(); return [b.result(),prop]
    f.key="h_dl+hist"
    return f
ENGINES["C28"]=hist("C28"); INFO["C28"]=(DL_T.replace("daxlua module with its interpreters and threads","histlog module with its file and SQLite plugins"),DL_N.replace("what every script saw and when it ran, the tags and the status tags are","the recorded points and their times are"))
def mqtt(prop):
    def f(pool):
        a=pool.submit(build.server,_inner); c=pool.submit(build.mqtt,_inner); b=pool.submit(build.harness,"h_dl",_inner,(),DL_PARTS)
        a.result(); c.result(); return [b.result(),prop]
    f.key="h_dl+mqtt"
    return f
ENGINES["C29"]=mqtt("C29"); INFO["C29"]=(DL_T.replace("daxlua module with its interpreters and threads","daxmqtt module"),DL_N.replace("what every script saw and when it ran, the tags and the status tags are","its subscriptions and publications, what its filters saw and the tags are")+" The MQTT client library is played by the harness (a broker that is up or down, loses the connection, delivers messages from a thread of its own).")
def daxc(prop):
    def f(pool):
        a=pool.submit(build.server,_inner); c=pool.submit(build.daxc,_inner); b=pool.submit(build.harness,"h_dl",_inner,(),DL_PARTS)
        a.result(); c.result(); return [b.result(),prop]
    f.key="h_dl+daxc"
    return f
ENGINES["C30"]=daxc("C30"); INFO["C30"]=("explicit-state exploration of the real daxc program (complete memory snapshot/restore) connected to the real tag server, against a reference model of its commands",DL_N.replace("and every schedule of the module's threads within the stated preemption bound, ","").replace("what every script saw and when it ran, the tags and the status tags are","what it prints and the tags, types, mappings, events and overrides on the server are").replace("configured through its own Lua configuration, ",""))
def mst(prop):
    def f(pool):
        c=pool.submit(build.master,_inner); b=pool.submit(build.harness,"h_mst",_inner,(),())
        c.result(); return [b.result(),prop]
    f.key="h_mst"
    return f
ENGINES["C23"]=mst("C23")
INFO["C23"]=("explicit-state exploration of the real master program (complete memory snapshot/restore) with the harness as its kernel: fork, exec, wait, kill, signals, clock and /proc",
 "Every sequence of process ends, failed starts, exceeded limits, time steps and stop signals within the stated depth is executed on the real program, compiled from /repo and configured through its own Lua configuration; signals are also delivered at every shared memory access and call of its main loop. "
 "Each fork, exec, kill and its time is compared with the configuration. Trusted: the played kernel, the finite alphabets and depths; running in the background (daemonize) is not explored; process ids are not reused.")
ENGINES["C13"]=ret("C13")
INFO["C13"]=("exhaustive crash-point exploration: explicit-state exploration of the real tag server with the real SQLite engine on a simulated disk (complete memory snapshot/restore), restarting the server on every disk image a kill or a machine stop can leave",
 "Every operation sequence up to the stated depth is executed on the real server code, compiled from /repo with ASAN and HAVE_SQLITE; after each operation the server is started again on every crash image (all I/O prefixes; subsets and torn halves of unsynchronised writes) and every restored tag is compared with the values it may have. "
 "Trusted: the disk model (file creation/deletion durable at once, 512-byte sectors), SQLite's single-threaded mode, the finite alphabets and depths; hash collisions (64 bit).")
NA={}
