#include "rt.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <dlfcn.h>
#include <link.h>
#include <pthread.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <poll.h>
#include <fcntl.h>
#include <termios.h>
#include <sys/stat.h>
#include <malloc.h>
#include <setjmp.h>
#include <atomic>
#include <map>

extern "C" void __asan_poison_memory_region(void const volatile *, size_t);
extern "C" void __asan_unpoison_memory_region(void const volatile *, size_t);

namespace rt {
// =============================== memory layout ==============================
static const uintptr_t ARENA = 0x200000000000ull;
static const size_t HEAP_MAX = 48u << 20;
static const size_t STK = 256u << 10;
static char *heap = (char *)ARENA;
static char *stacks = (char *)(ARENA + HEAP_MAX);
static inline unsigned char *shadow(const void *p) { return (unsigned char *)(((uintptr_t)p >> 3) + 0x7fff8000ull); }

// raw copies that ASAN must not look at
static inline void rawcpy(void *d, const void *s, size_t n) {
    asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) :: "memory");
}
static inline void rawset(void *d, int v, size_t n) {
    asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory");
}

bool in_target = false;
static void (*fail_cb)(const char *, const char *) = nullptr;
void set_fail(void (*f)(const char *, const char *)) { fail_cb = f; }
void fatal(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    fprintf(stderr, "mc-runtime: "); vfprintf(stderr, fmt, ap); fprintf(stderr, "\n");
    va_end(ap); fflush(stderr); _exit(90);
}
static void failure(const char *kind, const char *fmt, ...) {
    static char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (fail_cb) fail_cb(kind, b);
    fatal("%s: %s", kind, b);
}

// =============================== heap =======================================
struct Chunk { uint32_t off, len, req; uint32_t used; };   // len includes redzones; partition of [0,brk)
enum { RZ = 32, MAXCH = 20000 };
struct HeapMeta { uint32_t n, brk; int32_t failctr; uint32_t pad; };
static HeapMeta hm;
static Chunk ch[MAXCH];
static inline int find_chunk(uint32_t off) {
    int lo = 0, hi = (int)hm.n - 1;
    while (lo <= hi) { int m = (lo + hi) / 2; if (ch[m].off == off) return m; if (ch[m].off < off) lo = m + 1; else hi = m - 1; }
    return -1;
}
static void ins_chunk(int at, Chunk c) {
    if (hm.n + 1 >= MAXCH) failure("memory", "unbounded memory growth (too many live allocations)");
    memmove(&ch[at + 1], &ch[at], (hm.n - at) * sizeof(Chunk)); ch[at] = c; hm.n++;
}
static void del_chunk(int at) { memmove(&ch[at], &ch[at + 1], (hm.n - at - 1) * sizeof(Chunk)); hm.n--; }
static inline bool in_heap(const void *p) { return (uintptr_t)p >= ARENA && (uintptr_t)p < ARENA + HEAP_MAX; }

static void *h_alloc(size_t req) {
    if (req > HEAP_MAX / 2) { errno = ENOMEM; return nullptr; }
    if (hm.failctr > 0 && --hm.failctr == 0) { errno = ENOMEM; return nullptr; }
    uint32_t need = (uint32_t)((req + 15) / 16 * 16 + 2 * RZ);
    int at = -1;
    for (uint32_t i = 0; i < hm.n; i++) if (!ch[i].used && ch[i].len >= need) { at = (int)i; break; }
    if (at < 0) {
        if (hm.n && !ch[hm.n - 1].used) {               // extend the trailing free chunk
            at = (int)hm.n - 1; uint32_t extra = need - ch[at].len;
            if (hm.brk + extra > HEAP_MAX) { errno = ENOMEM; return nullptr; }
            rawset(shadow(heap + hm.brk), 0xfa, extra / 8); rawset(heap + hm.brk, 0xDD, extra);
            hm.brk += extra; ch[at].len += extra;
        } else {
            if (hm.brk + need > HEAP_MAX) { errno = ENOMEM; return nullptr; }
            Chunk c{hm.brk, need, 0, 0};
            rawset(shadow(heap + hm.brk), 0xfa, need / 8); rawset(heap + hm.brk, 0xDD, need);
            hm.brk += need; at = (int)hm.n; ins_chunk(at, c);
        }
    }
    if (ch[at].len > need) { Chunk r{ch[at].off + need, ch[at].len - need, 0, 0}; ch[at].len = need; ins_chunk(at + 1, r); }
    ch[at].used = 1; ch[at].req = (uint32_t)req;
    char *p = heap + ch[at].off + RZ;
    rawset(shadow(heap + ch[at].off), 0xfa, ch[at].len / 8);
    __asan_unpoison_memory_region(p, req);
    rawset(p, 0xA5, req); if (!(at & 1)) for (size_t k = 3; k < req; k += 4) p[k] = 0x5A;   // uninitialised integers are large, negative in one half of the blocks and positive in the other
    return p;
}
static void h_free(void *p) {
    int i = find_chunk((uint32_t)((char *)p - heap) - RZ);
    if (i < 0 || !ch[i].used) failure("memory", "free() of an invalid or already freed pointer");
    ch[i].used = 0; ch[i].req = 0;
    rawset(heap + ch[i].off, 0xDD, ch[i].len);
    rawset(shadow(heap + ch[i].off), 0xfd, ch[i].len / 8);
    if (i + 1 < (int)hm.n && !ch[i + 1].used) { ch[i].len += ch[i + 1].len; del_chunk(i + 1); }
    if (i > 0 && !ch[i - 1].used) { ch[i - 1].len += ch[i].len; del_chunk(i); i--; }
    rawset(shadow(heap + ch[i].off), 0xfd, ch[i].len / 8);   // canonical poison for every free byte
    if (i == (int)hm.n - 1) { hm.brk = ch[i].off; del_chunk(i); }
}
static size_t h_size(void *p) {
    int i = find_chunk((uint32_t)((char *)p - heap) - RZ);
    if (i < 0 || !ch[i].used) failure("memory", "realloc() of an invalid or already freed pointer");
    return ch[i].req;
}
size_t heap_live_chunks() { size_t n = 0; for (uint32_t i = 0; i < hm.n; i++) n += ch[i].used; return n; }
void fail_malloc_after(int n) { hm.failctr = n; }

// =============================== kernel state ===============================
enum Block { B_NONE, B_SELECT, B_READ, B_SLEEP, B_MUTEX, B_COND, B_JOIN, B_FOREVER, B_WRITE, B_BARRIER, B_EXT };
struct Co {
    uint8_t used, done, proc, started; int32_t block; void *obj; int64_t deadline; int32_t fd; int32_t wakeres;
    uint64_t *rfd; int32_t nfds; int32_t detached; void *mutex; int32_t at, epi; int32_t bgen, intr;
    char *sp; void *(*fn)(void *); void *arg; void *ret; std::function<void()> *hfn;
};
enum { MAXFD = 40, MAXEP = 24, RXBUF = 1 << 16 };
struct Ep { uint8_t used, open, peer_closed, listen; int16_t peer; int16_t owner; uint32_t len; int32_t port; int32_t nacc; int16_t acc[8]; int32_t rcvto; int16_t readers, zombie; int32_t hold; int16_t serial, nonblock; int32_t spare; };
struct Ext { int32_t port, nacc; int16_t acc[6]; };
struct Barrier { void *addr; int32_t count, waiting, gen, pad; };
struct Mutex { void *addr; int32_t owner; int32_t count; int32_t recursive; int32_t pad; };
enum { MAXMX = 192 };
struct Kern {
    Co co[MAXCO]; int32_t cur; int32_t ncos;
    int16_t fdt[MAXPROC][MAXFD];               // fd -> endpoint + 1
    Ep ep[MAXEP]; int64_t now; int32_t readlimit; int32_t tick; int32_t pid;
    int32_t nmx; Mutex mx[MAXMX]; int64_t stalls; int32_t nbar; int32_t shortread; Barrier bar[8]; int32_t pipe_ign[MAXPROC];
    Ext ext[3]; int32_t serial_peer, serial_opens; void (*sh0[32])(int); int32_t exited0, pad0;   // signal handlers and end of the server process
};
static Kern K;
static unsigned char rx[MAXEP][RXBUF];
int64_t *now_ms = &K.now;
int (*choose_hook)(int, const int *, int) = nullptr;
int (*env_hook)(const char *, int) = nullptr;
bool preemptive = false;
static bool timeouts_fire = false;
void set_timeouts_fire(bool on) { timeouts_fire = on; }

static char *main_sp;                            // saved sp of the harness context
extern "C" void rt_switch(char **save, char *load);
asm(R"(
.text
.globl rt_switch
rt_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
)");
static void yield_to_harness() {
    Co &c = K.co[K.cur];
    int e = errno; bool it = in_target; in_target = false;
    rt_switch(&c.sp, main_sp);
    in_target = it; errno = e;
}
extern "C" void rt_entry() {
    Co &c = K.co[K.cur];
    if (c.hfn) { (*c.hfn)(); } else { in_target = true; c.ret = c.fn(c.arg); in_target = false; }
    K.co[K.cur].done = 1;
    rt_switch(&K.co[K.cur].sp, main_sp);
    fatal("dead coroutine resumed");
}
static void co_prepare(int i) {
    char *top = stacks + (size_t)(i + 1) * STK;
    uint64_t *s = (uint64_t *)(top - 64);
    // layout popped by rt_switch: r15 r14 r13 r12 rbx rbp ret
    memset(s - 8, 0, 8 * 8 + 64);
    s[-1] = 0; s[-2] = (uint64_t)(void *)rt_entry;
    K.co[i].sp = (char *)(s - 8);
    // want rsp%16==8 at entry of rt_entry (as after a call)
    if ((((uintptr_t)(s - 1)) & 15) != 8) { s = (uint64_t *)((char *)s - 8); s[-1] = 0; s[-2] = (uint64_t)(void *)rt_entry; for (int k = 3; k <= 8; k++) s[-k] = 0; K.co[i].sp = (char *)(s - 8); }
}
static int co_new(int proc) {
    for (int i = 0; i < MAXCO; i++) if (!K.co[i].used) {
        memset(&K.co[i], 0, sizeof(Co)); K.co[i].used = 1; K.co[i].proc = (uint8_t)proc; K.co[i].deadline = -1;
        if (i >= K.ncos) K.ncos = i + 1;
        rawset(shadow(stacks + (size_t)i * STK), 0, STK / 8);
        co_prepare(i); return i;
    }
    fatal("too many threads"); 
}
int spawn(int proc, std::function<void()> *fn) { int i = co_new(proc); K.co[i].hfn = fn; return i; }
int spawn_c(int proc, void *(*fn)(void *), void *arg) { int i = co_new(proc); K.co[i].fn = fn; K.co[i].arg = arg; return i; }
void reap(int i) { if (K.co[i].used && K.co[i].done) { memset(&K.co[i], 0, sizeof(Co)); while (K.ncos > 0 && !K.co[K.ncos - 1].used) K.ncos--; } }
bool alive(int i) { return K.co[i].used && !K.co[i].done; }
int current_proc() { return K.cur >= 0 ? K.co[K.cur].proc : 0; }

static Mutex *mx_get(void *a) {
    for (int i = 0; i < K.nmx; i++) if (K.mx[i].addr == a) return &K.mx[i];
    if (K.nmx >= MAXMX) fatal("too many mutexes");
    Mutex *m = &K.mx[K.nmx++]; m->addr = a; m->owner = -1; m->count = 0; m->recursive = 0; m->pad = 0; return m;
}
static int fd_ep(int proc, int fd) { if (fd < 0 || fd >= MAXFD) return -1; return K.fdt[proc][fd] - 1; }
static bool ep_readable(int e) {
    if (e < 0) return true;                       // bad fd: select reports error elsewhere
    Ep &p = K.ep[e]; if (p.listen) return p.nacc > 0;
    return p.len > 0 || p.peer_closed;
}
static bool co_ready(int i) {
    Co &c = K.co[i];
    if (!c.used || c.done) return false;
    switch (c.block) {
        case B_NONE: return true;
        case B_SELECT:
            if (c.proc == 0 && K.tick && c.deadline >= 0) return true;
            for (int f = 0; f < c.nfds && f < MAXFD; f++) if (c.rfd[0] >> f & 1) if (ep_readable(fd_ep(c.proc, f))) return true;
            return c.deadline >= 0 && c.wakeres == 1;
        case B_READ: return c.epi < 0 || ep_readable(c.epi) || c.wakeres == 1;
        case B_BARRIER: { for (int b = 0; b < K.nbar; b++) if (K.bar[b].addr == c.obj) return K.bar[b].gen != c.bgen; return true; }
        case B_SLEEP: return c.intr || (c.deadline >= 0 && K.now >= c.deadline);
        case B_EXT: case B_FOREVER: return c.intr;
        case B_MUTEX: return mx_get(c.obj)->owner < 0;
        case B_COND: return c.wakeres >= 0 && mx_get(c.mutex)->owner < 0;
        case B_JOIN: { intptr_t t = (intptr_t)c.obj; return t >= 0 && t < MAXCO && K.co[t].done; }
        default: return false;
    }
}
static void run_co(int i) {
    K.cur = i;
    rt_switch(&main_sp, K.co[i].sp);
    K.cur = -1;
    if (K.co[i].done && K.co[i].detached) { K.co[i].used = 0; }
}
bool fire_earliest_deadline() {
    int best = -1;
    for (int i = 0; i < K.ncos; i++) {
        Co &c = K.co[i]; if (!c.used || c.done || c.deadline < 0) continue;
        if (c.block != B_SELECT && c.block != B_COND && c.block != B_SLEEP && c.block != B_READ) continue;
        if (c.block == B_SELECT && c.proc == 0) continue;       // server idle tick is an explicit event
        if (c.block == B_COND && c.wakeres >= 0) continue;
        if (best < 0 || c.deadline < K.co[best].deadline) best = i;
    }
    if (best < 0) return false;
    Co &c = K.co[best]; if (c.deadline > K.now) K.now = c.deadline;
    if (c.block == B_COND) c.wakeres = ETIMEDOUT; else c.wakeres = 1;
    return true;
}
bool run_idle() {
    long budget = 2000000; int last = -1;
    for (;;) {
        int ids[MAXCO], n = 0, curi = -1;
        for (int i = 0; i < K.ncos; i++) if (co_ready(i)) { if (i == last) curi = n; ids[n++] = i; }
        if (!n) { if (timeouts_fire && fire_earliest_deadline()) continue; break; }
        int pick;
        if (choose_hook) {
            // canonical order: running one first
            if (curi > 0) { int t = ids[curi]; for (int k = curi; k > 0; k--) ids[k] = ids[k - 1]; ids[0] = t; curi = 0; }
            pick = n > 1 ? choose_hook(n, ids, curi) : 0;
            if (pick < 0) return true;
        } else pick = curi >= 0 ? curi : 0;
        last = ids[pick];
        run_co(last);
        if (--budget <= 0) return false;
    }
    K.tick = 0;
    return true;
}
bool deadlocked() {
    for (int i = 0; i < K.ncos; i++) { Co &c = K.co[i]; if (c.used && !c.done && c.proc != 0 && (c.block == B_MUTEX || c.block == B_JOIN || (c.block == B_COND) || c.block == B_READ || c.block == B_SELECT)) return true; }
    return false;
}
std::string describe_threads() {
    static const char *bn[] = {"running", "select", "read", "sleep", "mutex", "cond", "join", "forever", "write", "barrier"};
    std::string s;
    for (int i = 0; i < K.ncos; i++) { Co &c = K.co[i]; if (!c.used) continue;
        char b[160]; snprintf(b, sizeof b, "thread %d (proc %d): %s%s; ", i, c.proc, c.done ? "finished" : "blocked in ", c.done ? "" : bn[c.block]); s += b; }
    return s;
}
static void sched_point(int at = AT_SYNC) {        // may switch to another coroutine (engine B)
    if (!preemptive || K.cur < 0 || K.co[K.cur].proc == 0) return;
    K.co[K.cur].block = B_NONE; K.co[K.cur].at = at;
    yield_to_harness();
    K.co[K.cur].at = 0;
}
// ---- explicit scheduling (engine B): the harness chooses every step
int enabled(int *ids) { int n = 0; for (int i = 0; i < K.ncos; i++) if (co_ready(i)) ids[n++] = i; return n; }
void run_one(int i) { run_co(i); }
int co_proc(int i) { return K.co[i].proc; }
int co_at(int i) { return K.co[i].at; }
bool co_blocked_cond(int i) { Co &c = K.co[i]; return c.used && !c.done && c.block == B_COND && c.wakeres == -1; }
void spurious(int i) { K.co[i].wakeres = 0; }
size_t co_read_avail(int i) { Co &c = K.co[i]; if (!c.used || c.done || c.epi < 0) return 0; if (c.at != AT_READ && c.block != B_READ) return 0; return K.ep[c.epi].len; }
void set_shortread(int on) { K.shortread = on; }
int64_t co_deadline(int i) {
    Co &c = K.co[i]; if (!c.used || c.done || c.deadline < 0) return -1;
    if (c.block != B_SELECT && c.block != B_COND && c.block != B_SLEEP && c.block != B_READ) return -1;
    if (c.block == B_SELECT && c.proc == 0) return -1;
    if (c.block == B_COND && c.wakeres >= 0) return -1;
    if (c.block != B_COND && c.wakeres == 1) return -1;
    return c.deadline;
}
void fire(int i) { Co &c = K.co[i]; if (c.deadline > K.now) K.now = c.deadline; if (c.block == B_COND) c.wakeres = ETIMEDOUT; else c.wakeres = 1; }
void point_access() { sched_point(AT_ACCESS); }
static void block_on(int kind) {
    Co &c = K.co[K.cur]; c.block = kind;
    yield_to_harness();
    K.co[K.cur].block = B_NONE;
}

// =============================== network ====================================
static int ep_new() { for (int i = 0; i < MAXEP; i++) if (!K.ep[i].used) { memset(&K.ep[i], 0, sizeof(Ep)); K.ep[i].used = 1; K.ep[i].open = 1; K.ep[i].peer = -1; K.ep[i].owner = -1; return i; } fatal("too many sockets"); }
static int fd_new(int proc, int e) {
    for (int f = 3; f < MAXFD; f++) if (!K.fdt[proc][f]) { K.fdt[proc][f] = (int16_t)(e + 1); K.ep[e].owner = (int16_t)proc; return f; }
    errno = EMFILE; return -1;
}
static void ep_maybe_free(int e) {                // release when both ends are closed
    Ep &p = K.ep[e];
    if (p.open) return;
    if (p.peer >= 0 && K.ep[p.peer].open) return;
    if (p.peer >= 0) { int q = p.peer; memset(&K.ep[q], 0, sizeof(Ep)); }
    memset(&p, 0, sizeof(Ep));
}
static void ep_close(int e) {
    Ep &p = K.ep[e]; if (!p.used || !p.open) return;
    if (p.readers) { p.zombie = 1; return; }      // like the kernel: the file lives until the blocked read returns
    p.open = 0; p.len = 0;
    if (p.peer >= 0) K.ep[p.peer].peer_closed = 1;
    ep_maybe_free(e);
}
static int find_listener(int port) { for (int i = 0; i < MAXEP; i++) if (K.ep[i].used && K.ep[i].listen && K.ep[i].port == port) return i; return -1; }
static int ep_pair() { int a = ep_new(), b = ep_new(); K.ep[a].peer = (int16_t)b; K.ep[b].peer = (int16_t)a; return a; }
static int do_connect_ep(int port) {
    for (auto &x : K.ext) if (port && x.port == port) { if (x.nacc >= 6) fatal("too many connections to an outside port"); int a = ep_pair(); x.acc[x.nacc++] = K.ep[a].peer; return a; }
    int l = find_listener(port); if (l < 0) return -1;
    int a = ep_pair(), b = K.ep[a].peer;
    if (K.ep[l].nacc >= 8) fatal("accept backlog full");
    K.ep[l].acc[K.ep[l].nacc++] = (int16_t)b;
    return a;
}
int net_connect(int port) { int e = do_connect_ep(port); if (e < 0) fatal("nobody is listening on port %d", port); return e; }
bool net_listening(int port) { return find_listener(port) >= 0; }
void net_extern(int port, bool on) { for (auto &x : K.ext) if (x.port == port) { if (!on) memset(&x, 0, sizeof x); return; } if (on) for (auto &x : K.ext) if (!x.port) { x.port = port; return; } }
int net_ext_accept(int port) { for (auto &x : K.ext) if (x.port == port && x.nacc) { int c = x.acc[0]; for (int i = 1; i < x.nacc; i++) x.acc[i - 1] = x.acc[i]; x.nacc--; return c; } return -1; }
int serial_conn() { return K.serial_peer - 1; }
int serial_opens() { return K.serial_opens; }
static int serial_open(int proc) { int a = ep_pair(); K.ep[a].serial = 1; K.ep[K.ep[a].peer].serial = 1; K.serial_peer = K.ep[a].peer + 1; K.serial_opens++; return fd_new(proc, a); }
void net_send(int c, const void *p, size_t n) {
    int q = K.ep[c].peer; if (q < 0 || !K.ep[q].used || !K.ep[q].open) return;
    if (K.ep[q].len + n > RXBUF) fatal("virtual socket overflow");
    memcpy(rx[q] + K.ep[q].len, p, n); K.ep[q].len += (uint32_t)n;
}
size_t net_avail(int c) { return K.ep[c].len; }
static size_t ep_take(int e, void *p, size_t n) {
    if (n > K.ep[e].len) n = K.ep[e].len;
    memcpy(p, rx[e], n); memmove(rx[e], rx[e] + n, K.ep[e].len - n); K.ep[e].len -= (uint32_t)n; return n;
}
size_t net_recv(int c, void *p, size_t n) { return ep_take(c, p, n); }
void net_close(int c) { ep_close(c); }
bool net_server_closed(int c) { return K.ep[c].peer_closed; }
void net_limit_read(int n) { K.readlimit = n; }
void tick() { K.tick = 1; K.now += 1000; }
int server_fd_of(int conn) { int q = K.ep[conn].peer; for (int f = 3; f < MAXFD; f++) if (K.fdt[0][f] == q + 1) return f; return -1; }
void kill_process(int proc) {
    for (int i = 0; i < K.ncos; i++) if (K.co[i].used && K.co[i].proc == proc) { K.co[i].used = 0; K.co[i].done = 1; }
    for (int f = 0; f < MAXFD; f++) if (K.fdt[proc][f]) { ep_close(K.fdt[proc][f] - 1); K.fdt[proc][f] = 0; }
}
void raise_signal_main(int, void (*h)(int), int sig) { h(sig); }
// ---- a process whose kernel is played by the harness (master): calls that the harness answers, signals
bool exit_ok = false; void (*sig_point)() = nullptr; void (*exit_hook)(int) = nullptr; int (*kill_hook)(int, int) = nullptr; int (*sigaction_hook)(int, const struct sigaction *, struct sigaction *) = nullptr;
int ext_call(int what) { Co &c = K.co[K.cur]; c.fd = what; c.intr = 0; block_on(B_EXT); K.co[K.cur].intr = 0; return K.co[K.cur].wakeres; }
int ext_pending(int co) { Co &c = K.co[co]; return c.used && !c.done && c.block == B_EXT && !c.intr ? c.fd : -1; }
void ext_answer(int co, int v) { K.co[co].wakeres = v; K.co[co].intr = 1; }
bool signal_server(int sig) { void (*h)(int) = sig > 0 && sig < 32 ? K.sh0[sig] : nullptr; if (!h || h == SIG_DFL) return false; if (h == SIG_IGN) return true; bool o = in_target; in_target = true; h(sig); in_target = o; if (K.co[0].used && !K.co[0].done && K.co[0].block == B_FOREVER) K.co[0].intr = 1; return true; }
int server_exited() { return K.exited0; }
bool interrupt(int co) { Co &c = K.co[co]; if (!c.used || c.done || c.block != B_SLEEP) return false; c.intr = 1; return true; }
static int64_t sleep_ms(int64_t ms) {                 // what is left when a signal ended it
    if (sig_point && ms <= 0) ms = 1;
    int me = K.cur; K.co[me].deadline = K.now + ms; K.co[me].intr = 0; block_on(B_SLEEP); Co &c = K.co[me]; int64_t left = c.deadline - K.now; bool i = c.intr; c.deadline = -1; c.intr = 0; if (i && sig_point) sig_point(); return i ? (left > 0 ? left : 0) : -1;
}

// =============================== snapshots ==================================
struct Segm { char *p; size_t n; };
static std::vector<Segm> segs;
static int phdr_cb(struct dl_phdr_info *info, size_t, void *data) {
    const char *want = (const char *)data;
    if (!info->dlpi_name || strcmp(info->dlpi_name, want)) return 0;
    for (int i = 0; i < info->dlpi_phnum; i++) {
        const ElfW(Phdr) &ph = info->dlpi_phdr[i];
        if (ph.p_type == PT_LOAD && (ph.p_flags & PF_W)) segs.push_back({(char *)info->dlpi_addr + ph.p_vaddr, ph.p_memsz});
    }
    return 1;
}
void *load(const char *so) {
    void *h = dlopen(so, RTLD_NOW | RTLD_LOCAL);
    if (!h) fatal("dlopen: %s", dlerror());
    struct link_map *lm; dlinfo(h, RTLD_DI_LINKMAP, &lm);
    size_t before = segs.size();
    dl_iterate_phdr(phdr_cb, lm->l_name);
    if (segs.size() == before) fatal("no writable segment found for %s", so);
    return h;
}
void *sym(void *h, const char *n, bool must) { void *p = dlsym(h, n); if (!p && must) fatal("symbol %s not found", n); return p; }
void init() {
    void *p = mmap((void *)ARENA, HEAP_MAX + (size_t)MAXCO * STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void *)ARENA) fatal("cannot map arena");
    memset(&K, 0, sizeof K); K.cur = -1; K.now = 1700000000000ll; K.pid = 4242;
    memset(&hm, 0, sizeof hm);
}
template <class F> static void regions(F f) {     // every piece of state, in a fixed order
    for (auto &s : segs) f(s.p, s.n);
    f((char *)&hm, sizeof hm); f((char *)ch, hm.n * sizeof(Chunk));
    f(heap, hm.brk); f((char *)shadow(heap), hm.brk / 8);
    f((char *)&K, sizeof K);
    for (int i = 0; i < MAXEP; i++) if (K.ep[i].used) f((char *)rx[i], K.ep[i].len);
    for (int i = 0; i < K.ncos; i++) if (K.co[i].used && !K.co[i].done) {
        char *top = stacks + (size_t)(i + 1) * STK; char *sp = (char *)((uintptr_t)K.co[i].sp & ~63ull);
        f(sp, (size_t)(top - sp)); f((char *)shadow(sp), (size_t)(top - sp) / 8);
    }
}
static std::vector<std::vector<unsigned char>> snap_pool;
Snap::~Snap() { if (b.capacity() && snap_pool.size() < 512) snap_pool.push_back(std::move(b)); }
void save(Snap &s) {
    if (!s.b.capacity() && !snap_pool.empty()) { s.b = std::move(snap_pool.back()); snap_pool.pop_back(); }
    size_t tot = 0; regions([&](char *, size_t n) { tot += n; });
    s.b.resize(tot); unsigned char *d = s.b.data();
    regions([&](char *p, size_t n) { rawcpy(d, p, n); d += n; });
}
void restore(const Snap &s) {
    uint32_t oldbrk = hm.brk;
    const unsigned char *d = s.b.data();
    auto get = [&](void *p, size_t n) { rawcpy(p, d, n); d += n; };
    for (auto &g : segs) get(g.p, g.n);
    get(&hm, sizeof hm); get(ch, hm.n * sizeof(Chunk));
    get(heap, hm.brk); get(shadow(heap), hm.brk / 8);
    if (oldbrk > hm.brk) rawset(shadow(heap + hm.brk), 0xfa, (oldbrk - hm.brk) / 8);
    get(&K, sizeof K);
    for (int i = 0; i < MAXEP; i++) if (K.ep[i].used) get(rx[i], K.ep[i].len);
    for (int i = 0; i < K.ncos; i++) if (K.co[i].used && !K.co[i].done) {
        char *top = stacks + (size_t)(i + 1) * STK; char *sp = (char *)((uintptr_t)K.co[i].sp & ~63ull);
        char *lo = stacks + (size_t)i * STK; rawset(shadow(lo), 0, (size_t)(sp - lo) / 8);
        get(sp, (size_t)(top - sp)); get(shadow(sp), (size_t)(top - sp) / 8);
    }
    if (d != s.b.data() + s.b.size()) fatal("snapshot size mismatch");
}
static inline uint64_t mix(uint64_t a, uint64_t b) { __uint128_t m = (__uint128_t)(a ^ 0x9E3779B97F4A7C15ull) * (b ^ 0xD6E8FEB86659FD93ull); return (uint64_t)m ^ (uint64_t)(m >> 64); }
__attribute__((no_sanitize("address"))) static uint64_t hash_bytes(const unsigned char *p, size_t n, uint64_t h) {
    h = mix(h, n);
    while (n >= 32) {
        uint64_t a, b, c, e; __builtin_memcpy(&a, p, 8); __builtin_memcpy(&b, p + 8, 8); __builtin_memcpy(&c, p + 16, 8); __builtin_memcpy(&e, p + 24, 8);
        h = mix(h + a, b); h = mix(h + c, e ^ 0xA0761D6478BD642Full); p += 32; n -= 32;
    }
    while (n >= 8) { uint64_t a; __builtin_memcpy(&a, p, 8); h = mix(h, a); p += 8; n -= 8; }
    while (n--) h = mix(h, *p++ + 257u);
    return h;
}
uint64_t hash() {
    uint64_t h = 1;
    for (auto &s : segs) h = hash_bytes((unsigned char *)s.p, s.n, h);
    for (uint32_t i = 0; i < hm.n; i++) if (ch[i].used) { h = mix(h, ch[i].off * 77777ull + ch[i].req); h = hash_bytes((unsigned char *)heap + ch[i].off + RZ, ch[i].req, h); }
    for (int i = 0; i < MAXEP; i++) { Ep &p = K.ep[i]; if (!p.used) continue; h = mix(h, i + 1000); h = hash_bytes((unsigned char *)&p, sizeof p, h); h = hash_bytes(rx[i], p.len, h); }
    h = hash_bytes((unsigned char *)K.fdt, sizeof K.fdt, h);
    h = mix(h, (uint64_t)K.now);
    h = hash_bytes((unsigned char *)K.mx, sizeof(Mutex) * K.nmx, h); h = hash_bytes((unsigned char *)K.bar, sizeof(Barrier) * K.nbar, h); h = hash_bytes((unsigned char *)K.pipe_ign, sizeof K.pipe_ign, h);
    for (int i = 0; i < K.ncos; i++) if (K.co[i].used && !K.co[i].done) {
        Co &c = K.co[i]; h = mix(h, (uint64_t)c.block * 31 + i); h = mix(h, (uint64_t)c.deadline); h = mix(h, (uint64_t)(uint32_t)c.wakeres * 4 + (uint64_t)c.done); h = mix(h, (uint64_t)c.at * 100 + (uint64_t)(c.epi + 1));
        if (c.proc != 0) { char *top = stacks + (size_t)(i + 1) * STK; char *sp = (char *)((uintptr_t)c.sp & ~63ull); h = hash_bytes((unsigned char *)sp, (size_t)(top - sp), h); }
    }
    return h;
}
} // namespace rt
using namespace rt;

// =============================== libc wrappers ==============================
#define W extern "C" __attribute__((visibility("default")))
struct T { bool o; T() : o(in_target) { in_target = false; } ~T() { in_target = o; } };
W void *__wrap_malloc(size_t n) { T t; return h_alloc(n); }
W void __wrap_free(void *p) { T t; if (!p) return; if (in_heap(p)) h_free(p); else free(p); }
W void *__wrap_calloc(size_t a, size_t b) { T t; if (b && a > HEAP_MAX / b) { errno = ENOMEM; return nullptr; } void *p = h_alloc(a * b); if (p) memset(p, 0, a * b); return p; }
W void *__wrap_realloc(void *p, size_t n) {
    T t; if (!p) return h_alloc(n);
    if (!in_heap(p)) return realloc(p, n);
    size_t o = h_size(p); void *q = h_alloc(n ? n : 1); if (!q) return nullptr;
    memcpy(q, p, o < n ? o : n); h_free(p); return q;
}
W char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; T t; char *p = (char *)h_alloc(n); if (p) memcpy(p, s, n); return p; }
W char *__wrap_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); T t; char *p = (char *)h_alloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }

#define INCO (K.cur >= 0)
static int P() { return K.co[K.cur].proc; }
W int __wrap_socket(int d, int ty, int pr) { T t; if (!INCO) return socket(d, ty, pr); int e = ep_new(); return fd_new(P(), e); }
W int __wrap_bind(int fd, const struct sockaddr *sa, socklen_t) { T t; int e = fd_ep(P(), fd); if (e < 0) { errno = EBADF; return -1; } K.ep[e].port = sa->sa_family == AF_INET ? ntohs(((const sockaddr_in *)sa)->sin_port) : 0; return 0; }
W int __wrap_listen(int fd, int) { T t; int e = fd_ep(P(), fd); if (e < 0) { errno = EBADF; return -1; } K.ep[e].listen = 1; return 0; }
W int __wrap_setsockopt(int fd, int lv, int o, const void *v, socklen_t) { T t; if (!INCO) return 0; int e = fd_ep(P(), fd); if (e < 0) { errno = EBADF; return -1; } if (lv == SOL_SOCKET && o == SO_RCVTIMEO) { const struct timeval *tv = (const struct timeval *)v; K.ep[e].rcvto = (int)(tv->tv_sec * 1000 + tv->tv_usec / 1000); } return 0; }
W int __wrap_fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long v = va_arg(ap, long); va_end(ap); if (INCO && cmd == F_SETFL) { int e = fd_ep(P(), fd); if (e >= 0) K.ep[e].nonblock = (v & O_NONBLOCK) != 0; } return 0; }
W int __wrap_open(const char *path, int, ...) { T t; if (INCO && !strncmp(path, "/dev/mc", 7)) return serial_open(P()); errno = ENOENT; return -1; }
W int __wrap_stat(const char *path, struct stat *st) { T t; if (INCO && !strncmp(path, "/dev/mc", 7)) { memset(st, 0, sizeof *st); return 0; } errno = ENOENT; return -1; }
W int __wrap_tcgetattr(int, struct termios *o) { memset(o, 0, sizeof *o); return 0; }
W int __wrap_tcsetattr(int, int, const struct termios *) { return 0; }
W int __wrap_tcflush(int fd, int q) { T t; int e = INCO ? fd_ep(P(), fd) : -1; if (e < 0) { errno = EBADF; return -1; } if (!K.ep[e].serial) { errno = ENOTTY; return -1; } if (q != TCOFLUSH) K.ep[e].len = 0; return 0; }
W int __wrap_printf(const char *f, ...) { char b[1024]; va_list ap; va_start(ap, f); int n = vsnprintf(b, sizeof b, f, ap); va_end(ap); return n; }
W int __wrap_fprintf(FILE *, const char *f, ...) { char b[1024]; va_list ap; va_start(ap, f); int n = vsnprintf(b, sizeof b, f, ap); va_end(ap); return n; }
W int __wrap_puts(const char *s) { return (int)strlen(s); }
W int __wrap_putchar(int c) { return c; }
W size_t __wrap_fwrite(const void *, size_t, size_t n, FILE *) { return n; }
W int __wrap_accept(int fd, struct sockaddr *a, socklen_t *l) {
    T t; int e = fd_ep(P(), fd); if (e < 0 || !K.ep[e].listen) { errno = EBADF; return -1; }
    while (!K.ep[e].nacc) { K.co[K.cur].fd = fd; K.co[K.cur].epi = e; block_on(B_READ); }
    int q = K.ep[e].acc[0]; for (int i = 1; i < K.ep[e].nacc; i++) K.ep[e].acc[i - 1] = K.ep[e].acc[i]; K.ep[e].nacc--;
    if (l && a && *l >= sizeof(sa_family_t)) a->sa_family = AF_UNIX;
    if (l) *l = sizeof(sa_family_t);
    return fd_new(P(), q);
}
W int __wrap_connect(int fd, const struct sockaddr *sa, socklen_t) {
    T t; sched_point(); int e = fd_ep(P(), fd); if (e < 0) { errno = EBADF; return -1; }
    int a = do_connect_ep(sa && sa->sa_family == AF_INET ? ntohs(((const sockaddr_in *)sa)->sin_port) : 0); if (a < 0) { errno = ECONNREFUSED; return -1; }
    // replace the placeholder endpoint by the connected one
    memset(&K.ep[e], 0, sizeof(Ep)); K.fdt[P()][fd] = (int16_t)(a + 1); K.ep[a].owner = (int16_t)P();
    return 0;
}
W int __wrap_getpeername(int fd, struct sockaddr *a, socklen_t *l) { T t; if (fd_ep(P(), fd) < 0) { errno = EBADF; return -1; } memset(a, 0, *l < sizeof(sockaddr_un) ? *l : sizeof(sockaddr_un)); a->sa_family = AF_UNIX; *l = sizeof(sa_family_t); return 0; }
W int __wrap_getsockname(int fd, struct sockaddr *a, socklen_t *l) { return __wrap_getpeername(fd, a, l); }
W int __wrap_close(int fd) {
    T t; if (!INCO) return close(fd);
    int e = fd_ep(P(), fd); if (e < 0) { errno = EBADF; return -1; }
    sched_point(); e = fd_ep(P(), fd); if (e < 0) { errno = EBADF; return -1; } K.fdt[P()][fd] = 0; ep_close(e); return 0;
}
W int __wrap_shutdown(int fd, int) { T t; sched_point(); int e = fd_ep(P(), fd); if (e < 0) { errno = EBADF; return -1; } if (K.ep[e].peer >= 0) K.ep[K.ep[e].peer].peer_closed = 1; K.ep[e].peer_closed = 1; return 0; }
static ssize_t do_read(int fd, void *p, size_t n) {
    int e0 = fd_ep(P(), fd); K.co[K.cur].epi = e0;
    sched_point(AT_READ);
    int e = fd_ep(P(), fd);
    if (e < 0) {
        if (P() != 0 && fd >= 0 && fd <= 2) failure("bad-io", "the client library reads file descriptor %d, which is not its connection", fd);
        errno = EBADF; return -1;
    }
    if (K.ep[e].listen) { errno = EINVAL; return -1; }
    if (n == 0) return 0;
    Co &c = K.co[K.cur];
    bool timed = false;
    K.ep[e].readers++;
    if (K.ep[e].hold) { K.ep[e].hold = 0; timed = true; }      // the rest of a message arrives after the receive timeout
    bool empty = !K.ep[e].len && !K.ep[e].peer_closed && (K.ep[e].serial || K.ep[e].nonblock);
    while (!timed && !empty && !K.ep[e].len && !K.ep[e].peer_closed) {
        c.fd = fd; c.epi = e; c.wakeres = 0; c.deadline = K.ep[e].rcvto > 0 ? K.now + K.ep[e].rcvto : -1;
        block_on(B_READ);
        int w = c.wakeres; c.wakeres = 0; c.deadline = -1;
        if (w == 1) { timed = true; break; }
    }
    ssize_t res;
    if (timed || (empty && !K.ep[e].serial)) { errno = EWOULDBLOCK; res = -1; }
    else if (empty) res = 0;
    else {
        size_t m = K.ep[e].len < n ? K.ep[e].len : n;
        if (P() == 0 && K.readlimit > 0 && m > (size_t)K.readlimit) m = (size_t)K.readlimit;
        if (P() != 0 && K.shortread && m > 1) { m = 1; if (K.shortread == 2) K.ep[e].hold = 1; }
        memcpy(p, rx[e], m);                       // the copy into the caller's buffer is checked by ASAN (intercepted memcpy)
        memmove(rx[e], rx[e] + m, K.ep[e].len - m); K.ep[e].len -= (uint32_t)m; res = (ssize_t)m;
    }
    int er = errno;
    if (--K.ep[e].readers == 0 && K.ep[e].zombie) { K.ep[e].zombie = 0; ep_close(e); }
    c.epi = -1; errno = er; return res;
}
W ssize_t __wrap_read(int fd, void *p, size_t n) {
    bool savein = in_target; in_target = false; ssize_t r;
    if (!INCO) r = read(fd, p, n); else r = do_read(fd, p, n);
    in_target = savein; return r;
}
static ssize_t do_write(int fd, const void *p, size_t n, int flags) {
    bool savein = in_target; in_target = false;
    if (!INCO || fd == 1 || fd == 2) { ssize_t r = (ssize_t)n; if (!INCO) r = write(fd, p, n); in_target = savein; return r; }
    sched_point(AT_WRITE);
    int e = fd_ep(P(), fd); if (e < 0) { in_target = savein; errno = EBADF; return -1; }
    int q = K.ep[e].peer;
    if (q < 0 || !K.ep[q].used || !K.ep[q].open) {
        if (!K.pipe_ign[P()] && !(flags & MSG_NOSIGNAL)) failure("abort", "the process is killed by SIGPIPE: it writes to a connection whose peer is gone");
        in_target = savein; errno = EPIPE; return -1;
    }
    if (K.ep[q].len + n > RXBUF) { in_target = savein; errno = EAGAIN; return -1; }
    memcpy(rx[q] + K.ep[q].len, p, n); K.ep[q].len += (uint32_t)n;
    in_target = savein; return (ssize_t)n;
}
W ssize_t __wrap_write(int fd, const void *p, size_t n) { return do_write(fd, p, n, 0); }
W ssize_t __wrap_send(int fd, const void *p, size_t n, int fl) { return do_write(fd, p, n, fl); }
W ssize_t __wrap_recv(int fd, void *p, size_t n, int) { return __wrap_read(fd, p, n); }
W int __wrap_select(int nfds, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv) {
    T t; if (!INCO) return select(nfds, r, w, x, tv);
    sched_point();
    uint64_t want = 0; for (int f = 0; f < nfds && f < MAXFD; f++) if (r && FD_ISSET(f, r)) want |= 1ull << f;
    for (int f = 0; f < MAXFD; f++) if ((want >> f & 1) && fd_ep(P(), f) < 0) { errno = EBADF; return -1; }
    Co &c = K.co[K.cur];
    uint64_t got = 0;
    for (;;) {
        got = 0; for (int f = 0; f < MAXFD; f++) if ((want >> f & 1) && ep_readable(fd_ep(P(), f))) got |= 1ull << f;
        if (got) break;
        if (tv && tv->tv_sec == 0 && tv->tv_usec == 0) break;
        if (P() == 0 && K.tick && tv) { K.tick = 0; break; }
        if (c.wakeres == 1) { c.wakeres = 0; break; }
        uint64_t w64 = want; c.rfd = &w64; c.nfds = nfds; c.deadline = tv ? K.now + tv->tv_sec * 1000 + tv->tv_usec / 1000 : -1;
        block_on(B_SELECT); c.rfd = nullptr; c.deadline = -1;
    }
    c.wakeres = 0;
    int n = 0;
    if (r) for (int f = 0; f < nfds && f < MAXFD; f++) { if (got >> f & 1) { FD_SET(f, r); n++; } else FD_CLR(f, r); }
    if (w) FD_ZERO(w);
    if (x) FD_ZERO(x);
    return n;
}
W int __wrap_unlink(const char *) { return 0; }
W pid_t __wrap_getpid(void) { return K.pid; }
W int __wrap_kill(pid_t p, int s) { T t; if (INCO && P() && kill_hook) return kill_hook(p, s); failure("abort", "the program gave up: kill(%d, %d)", (int)p, s); return 0; }
W void __wrap_exit(int c) { T t; if (INCO && P() && exit_hook) exit_hook(c); if (INCO && !P() && exit_ok) { K.exited0 = 1 + (c != 0); for (int i = 0; i < K.ncos; i++) if (K.co[i].used && K.co[i].proc == 0 && i != K.cur) { K.co[i].used = 0; K.co[i].done = 1; } K.co[K.cur].done = 1; rt_switch(&K.co[K.cur].sp, main_sp); } failure("abort", "the program called exit(%d)", c); }
W void __wrap_abort(void) { T t; failure("abort", "the program called abort()"); }
W void __wrap___assert_fail(const char *a, const char *f, unsigned l, const char *) { T t; failure("abort", "assertion failed: %s (%s:%u)", a, f, l); }
W int __wrap_sigaction(int sg, const struct sigaction *a, struct sigaction *o) { if (INCO && P() && sigaction_hook) { T t; return sigaction_hook(sg, a, o); } (void)o; if (INCO && !P() && a && sg > 0 && sg < 32) K.sh0[sg] = a->sa_handler; if (INCO && sg == SIGPIPE && a) K.pipe_ign[P()] = a->sa_handler != SIG_DFL; return 0; }
W void *__wrap_signal(int sg, void *h) { if (INCO && P() && sigaction_hook) { T t; struct sigaction n, o; memset(&n, 0, sizeof n); memset(&o, 0, sizeof o); n.sa_handler = (void (*)(int))h; sigaction_hook(sg, &n, &o); return (void *)o.sa_handler; } if (INCO && !P() && sg > 0 && sg < 32) K.sh0[sg] = (void (*)(int))h; if (INCO && sg == SIGPIPE) K.pipe_ign[P()] = h != (void *)SIG_DFL; return nullptr; }
W int __wrap_gettimeofday(struct timeval *tv, void *) { if (sig_point) { T t; sig_point(); } tv->tv_sec = K.now / 1000; tv->tv_usec = (K.now % 1000) * 1000; return 0; }
W time_t __wrap_time(time_t *t) { time_t v = K.now / 1000; if (t) *t = v; return v; }
W int __wrap_clock_gettime(clockid_t, struct timespec *ts) { ts->tv_sec = K.now / 1000; ts->tv_nsec = (K.now % 1000) * 1000000; return 0; }
W unsigned __wrap_sleep(unsigned s) {
    T t; if (!INCO) return 0;
    if (K.cur == 0 && P() == 0) { K.co[0].intr = 0; block_on(B_FOREVER); K.co[0].intr = 0; return 1; }
    if (P() == 0) { K.stalls++; return 0; }            // server's error pause: no effect on ordering
    int64_t l = sleep_ms(s * 1000ll); return l < 0 ? 0 : (unsigned)((l + 999) / 1000);
}
W int __wrap_usleep(useconds_t us) { T t; if (!INCO) return 0; if (sleep_ms((us + 999) / 1000) < 0) return 0; errno = EINTR; return -1; }
W int __wrap_nanosleep(const struct timespec *a, struct timespec *rem) { T t; if (!INCO) return 0; if (a->tv_nsec < 0 || a->tv_nsec > 999999999 || a->tv_sec < 0) { errno = EINVAL; return -1; } int64_t l = sleep_ms(a->tv_sec * 1000 + (a->tv_nsec + 999999) / 1000000); if (l < 0) return 0; if (rem) { rem->tv_sec = l / 1000; rem->tv_nsec = l % 1000 * 1000000; } errno = EINTR; return -1; }

// threads
W int mc_pthread_create(pthread_t *th, const pthread_attr_t *, void *(*fn)(void *), void *arg) {
    T t; int i = spawn_c(INCO ? P() : 0, fn, arg); *th = (pthread_t)(i + 1); sched_point(); return 0;
}
W int __wrap_pthread_join(pthread_t th, void **r) { T t; sched_point(); int i = (int)th - 1; if (i < 0 || i >= MAXCO || !K.co[i].used) return ESRCH; if (!K.co[i].done) { K.co[K.cur].obj = (void *)(intptr_t)i; block_on(B_JOIN); } if (r) *r = K.co[i].ret; K.co[i].used = 0; return 0; }
W int __wrap_pthread_detach(pthread_t th) { T t; int i = (int)th - 1; if (i < 0 || i >= MAXCO || !K.co[i].used) return ESRCH; K.co[i].detached = 1; return 0; }
W pthread_t __wrap_pthread_self(void) { return (pthread_t)(K.cur + 1); }
W void __wrap_pthread_exit(void *r) { T t; K.co[K.cur].ret = r; K.co[K.cur].done = 1; rt_switch(&K.co[K.cur].sp, main_sp); fatal("resumed dead"); }
W int __wrap_pthread_cancel(pthread_t th) { T t; int i = (int)th - 1; if (i < 0 || i >= MAXCO || !K.co[i].used) return ESRCH; K.co[i].done = 1; return 0; }
W int __wrap_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
W int __wrap_pthread_attr_init(pthread_attr_t *) { return 0; }
W int __wrap_pthread_attr_destroy(pthread_attr_t *) { return 0; }
W int __wrap_pthread_attr_setdetachstate(pthread_attr_t *, int) { return 0; }
W int __wrap_pthread_mutexattr_init(pthread_mutexattr_t *a) { memset(a, 0, sizeof *a); return 0; }
W int __wrap_pthread_mutexattr_settype(pthread_mutexattr_t *a, int ty) { *(int *)a = ty; return 0; }
W int __wrap_pthread_mutexattr_destroy(pthread_mutexattr_t *) { return 0; }
W int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { T t; Mutex *x = mx_get(m); x->owner = -1; x->count = 0; x->recursive = a && *(const int *)a == PTHREAD_MUTEX_RECURSIVE; return 0; }
W int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { T t; for (int i = 0; i < K.nmx; i++) if (K.mx[i].addr == m) { K.mx[i] = K.mx[K.nmx - 1]; memset(&K.mx[K.nmx - 1], 0, sizeof(Mutex)); K.nmx--; break; } return 0; }
static int mlock(void *m) {
    if (!INCO) return 0;
    sched_point();
    for (;;) {
        Mutex *x = mx_get(m);
        if (x->owner < 0) { x->owner = K.cur; x->count = 1; return 0; }
        if (x->owner == K.cur && x->recursive) { x->count++; return 0; }
        K.co[K.cur].obj = m; block_on(B_MUTEX);
    }
}
W int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { T t; return mlock(m); }
W int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { T t; if (!INCO) return 0; sched_point(); Mutex *x = mx_get(m); if (x->owner < 0) { x->owner = K.cur; x->count = 1; return 0; } return EBUSY; }
W int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { T t; if (!INCO) return 0; Mutex *x = mx_get(m); if (--x->count <= 0) { x->owner = -1; x->count = 0; } return 0; }
W int __wrap_pthread_cond_init(pthread_cond_t *, const pthread_condattr_t *) { return 0; }
W int __wrap_pthread_cond_destroy(pthread_cond_t *) { return 0; }
static int cwait(void *c, void *m, int64_t deadline) {
    Co &o = K.co[K.cur]; Mutex *x = mx_get(m); x->owner = -1; x->count = 0;
    o.obj = c; o.mutex = m; o.deadline = deadline; o.wakeres = -1;
    if (deadline >= 0 && deadline <= K.now) o.wakeres = ETIMEDOUT;
    block_on(B_COND);
    int r = o.wakeres; o.deadline = -1; o.wakeres = 0; o.obj = nullptr;
    for (;;) { x = mx_get(m); if (x->owner < 0) { x->owner = K.cur; x->count = 1; break; } K.co[K.cur].obj = m; block_on(B_MUTEX); }
    return r;
}
W int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { T t; return cwait(c, m, -1); }
W int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
    T t; if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) return EINVAL;
    return cwait(c, m, ts->tv_sec * 1000ll + ts->tv_nsec / 1000000);
}
W int __wrap_pthread_cond_signal(pthread_cond_t *c) { T t; if (!INCO) return 0; sched_point(); for (int i = 0; i < K.ncos; i++) { Co &o = K.co[i]; if (o.used && !o.done && o.block == B_COND && o.obj == c && o.wakeres == -1) { o.wakeres = 0; break; } } return 0; }
W int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { T t; if (!INCO) return 0; sched_point(); for (int i = 0; i < K.ncos; i++) { Co &o = K.co[i]; if (o.used && !o.done && o.block == B_COND && o.obj == c && o.wakeres == -1) o.wakeres = 0; } return 0; }
W int __wrap_pthread_barrier_init(pthread_barrier_t *b, const void *, unsigned n) { T t; for (int i = 0; i < K.nbar; i++) if (K.bar[i].addr == b) { K.bar[i].count = (int)n; K.bar[i].waiting = 0; return 0; } if (K.nbar >= 8) fatal("too many barriers"); Barrier &x = K.bar[K.nbar++]; x.addr = b; x.count = (int)n; x.waiting = 0; x.gen = 0; x.pad = 0; return 0; }
W int __wrap_pthread_barrier_destroy(pthread_barrier_t *b) { T t; for (int i = 0; i < K.nbar; i++) if (K.bar[i].addr == b) { K.bar[i] = K.bar[--K.nbar]; memset(&K.bar[K.nbar], 0, sizeof(Barrier)); break; } return 0; }
W int __wrap_pthread_barrier_wait(pthread_barrier_t *b) {
    T t; sched_point(); Barrier *x = nullptr; for (int i = 0; i < K.nbar; i++) if (K.bar[i].addr == b) x = &K.bar[i];
    if (!x) return EINVAL;
    if (++x->waiting >= x->count) { x->waiting = 0; x->gen++; return PTHREAD_BARRIER_SERIAL_THREAD; }
    K.co[K.cur].obj = b; K.co[K.cur].bgen = x->gen; block_on(B_BARRIER); return 0;
}
// logging: the message is formatted (so bad arguments are noticed) and dropped
W void __wrap_dax_log(uint32_t, const char *f, ...) { if (sig_point) { T t; sig_point(); } char b[1024]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); }

void rt::dirty_stack(int i, uint32_t w, size_t n) { char *lo = stacks + (size_t)i * STK; uintptr_t sp = ((uintptr_t)K.co[i].sp & ~63ull) - 256; if ((size_t)(sp - (uintptr_t)lo) < n) n = (size_t)(sp - (uintptr_t)lo); for (uint32_t *p = (uint32_t *)(sp - n / 4 * 4); (uintptr_t)p < sp; p++) *p = w; }
// Lua errors: frames of the coroutine stack that are left must not stay poisoned
static void leave_frames() { if (K.cur >= 0) { char here; char *sp = (char *)((uintptr_t)&here & ~63ull); char *top = stacks + (size_t)(K.cur + 1) * STK; if (sp > stacks && sp < top) rawset(shadow(sp), 0, (size_t)(top - sp) / 8); } }
W void __wrap__longjmp(struct __jmp_buf_tag *e, int v) { leave_frames(); _longjmp(e, v); }
W void __wrap___longjmp_chk(struct __jmp_buf_tag *e, int v) { leave_frames(); longjmp(e, v); }
W void __wrap_longjmp(struct __jmp_buf_tag *e, int v) { leave_frames(); longjmp(e, v); }

// =============================== memory accesses of an instrumented client (race-directed scheduling) ==========
// The client is compiled with -fsanitize=thread; the hooks below take the place of its runtime. Every access to shared
// memory is checked against the shadow of the arena, recorded (pass 1), or is a scheduling point (pass 2).
namespace rt {
struct AccEnt { std::atomic<uint64_t> key; };                  // pc(20) | granule(32) | write | tid(3) | lockset id(8)
enum { ACC_BITS = 20 };
static std::atomic<uint64_t> *acc_tab; static uint32_t (*acc_sets)[256]; static uint64_t *racy_bits; static uint8_t *racy_on; static uintptr_t acc_base;
bool acc_record = false, acc_points = false;
void acc_init(void *lib) {
    acc_tab = (std::atomic<uint64_t> *)mmap(nullptr, sizeof(uint64_t) << ACC_BITS, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    racy_bits = (uint64_t *)mmap(nullptr, (1u << 20) / 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    struct link_map *lm; dlinfo(lib, RTLD_DI_LINKMAP, &lm); acc_base = lm->l_addr;
}
static uint32_t lockset() { uint32_t m = 0; for (int i = 0; i < K.nmx && i < 16; i++) if (K.mx[i].owner == K.cur) m |= 1u << i; return m; }
static void acc_note(uintptr_t a, size_t n, bool w, uint32_t pc) {
    // offset of the granule: heap / client data, 24 bits of 8 bytes
    uint32_t ls = lockset() & 0x3ff;
    for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3 && g < (a >> 3) + 600; g++) {
        uint64_t k = ((uint64_t)(pc & 0xfffff) << 44) | ((g & 0x3fffffff) << 14) | ((uint64_t)w << 13) | ((uint64_t)(K.cur & 7) << 10) | ls; k |= 1ull << 63; // marks used
        uint64_t i = (k * 0x9E3779B97F4A7C15ull) >> (64 - ACC_BITS);
        for (int t = 0; t < 256; t++) { auto &e = acc_tab[(i + t) & ((1u << ACC_BITS) - 1)]; uint64_t v = e.load(std::memory_order_relaxed); if (v == k) break; if (!v) { uint64_t z = 0; if (e.compare_exchange_strong(z, k) || z == k) break; } }
    }
}
int acc_analyse() {                                              // racy program counters from what was recorded
    struct R { uint32_t pc, ls; uint8_t w, t; }; std::map<uint64_t, std::vector<R>> by;
    for (uint32_t i = 0; i < 1u << ACC_BITS; i++) { uint64_t k = acc_tab[i].load(); if (!k) continue; by[(k >> 14) & 0x3fffffff].push_back({(uint32_t)(k >> 44) & 0x7ffff, (uint32_t)(k & 0x3ff), (uint8_t)(k >> 13 & 1), (uint8_t)(k >> 10 & 7)}); }
    memset(racy_bits, 0, (1u << 20) / 8); int n = 0;
    for (auto &p : by) for (auto &a : p.second) for (auto &b : p.second) if (a.t != b.t && (a.w || b.w) && !(a.ls & b.ls)) { for (uint32_t pc : {a.pc, b.pc}) if (!(racy_bits[pc >> 6] >> (pc & 63) & 1)) { racy_bits[pc >> 6] |= 1ull << (pc & 63); n++; } }
    memset((void *)acc_tab, 0, sizeof(uint64_t) << ACC_BITS);
    return n;
}
__attribute__((no_sanitize("address"))) static void acc(const void *p, size_t n, bool w, void *ra) {
    if (K.cur < 0 || K.co[K.cur].proc == 0 || !n) return;
    uintptr_t a = (uintptr_t)p; uintptr_t own = (uintptr_t)(stacks + (size_t)K.cur * STK);
    if (a >= own && a < own + STK) return;
    if (a >= ARENA && a < ARENA + HEAP_MAX) for (uintptr_t q = a & ~7ull; q < a + n; q += 8) { unsigned char s = *shadow((void *)q); if (s) { size_t last = (a + n - 1 - q) > 7 ? 7 : (a + n - 1 - q); if (s >= 0x80 || last >= s) failure("memory-error", "%s of %zu bytes at 0x%lx: the memory is %s", w ? "write" : "read", n, (unsigned long)a, s == 0xfd ? "freed already" : "outside of every allocated block"); } }
    uint32_t pc = (uint32_t)((uintptr_t)ra - acc_base) & 0x7ffff;
    if (sig_point) { T t; sig_point(); }
    if (acc_record) acc_note(a, n, w, pc);
    if (acc_points && (racy_bits[pc >> 6] >> (pc & 63) & 1)) sched_point(AT_ACCESS);
}
}
#define RA __builtin_return_address(0)
#define TS(n) W void __tsan_read##n(void *p) { acc(p, n, false, RA); } W void __tsan_write##n(void *p) { acc(p, n, true, RA); } W void __tsan_unaligned_read##n(void *p) { acc(p, n, false, RA); } W void __tsan_unaligned_write##n(void *p) { acc(p, n, true, RA); } \
 W void __tsan_read_write##n(void *p) { acc(p, n, true, RA); } W void __tsan_volatile_read##n(void *p) { acc(p, n, false, RA); } W void __tsan_volatile_write##n(void *p) { acc(p, n, true, RA); }
TS(1) TS(2) TS(4) TS(8) TS(16)
W void __tsan_read_range(void *p, size_t n) { acc(p, n, false, RA); }
W void __tsan_write_range(void *p, size_t n) { acc(p, n, true, RA); }
W void __tsan_func_entry(void *) {} W void __tsan_func_exit() {} W void __tsan_init() {} W void __tsan_vptr_update(void **, void *) {} W void __tsan_vptr_read(void **) {}
W void *__wrap_memcpy(void *d, const void *s, size_t n) { acc(s, n, false, RA); acc(d, n, true, RA); rawcpy(d, s, n); return d; }
W void *__wrap_memmove(void *d, const void *s, size_t n) { acc(s, n, false, RA); acc(d, n, true, RA); T t; return memmove(d, s, n); }
W void *__wrap_memset(void *d, int v, size_t n) { acc(d, n, true, RA); rawset(d, v, n); return d; }
W char *__wrap_strcpy(char *d, const char *s) { size_t n = strlen(s) + 1; acc(s, n, false, RA); acc(d, n, true, RA); rawcpy(d, s, n); return d; }
W char *__wrap_strncpy(char *d, const char *s, size_t n) { acc(s, strnlen(s, n), false, RA); acc(d, n, true, RA); T t; return strncpy(d, s, n); }
W int __wrap_strcmp(const char *a, const char *b) { acc(a, strlen(a) + 1, false, RA); acc(b, strlen(b) + 1, false, RA); return strcmp(a, b); }
W int __wrap_strcasecmp(const char *a, const char *b) { acc(a, strlen(a) + 1, false, RA); acc(b, strlen(b) + 1, false, RA); return strcasecmp(a, b); }
