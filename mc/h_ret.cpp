// C13: tag retention. The real server with the real SQLite engine on a disk played by the harness: every I/O call is
// recorded, and the server is started again on every disk image a crash of the process or of the machine can leave behind.
#include "srv.h"
#include <sqlite3.h>
using namespace ex; using srv::Reply;
static bool thorough() { return g_tier == "thorough"; }
static uint64_t fnv(uint64_t h, const void *p, size_t n) { const uint8_t *q = (const uint8_t *)p; size_t i = 0; for (; i + 8 <= n; i += 8) { uint64_t v; memcpy(&v, q + i, 8); h = (h ^ v) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; } for (; i < n; i++) h = (h ^ q[i]) * 0x100000001b3ull; return h ^ h >> 31; }
// ------------------------------------------------------------------------- the disk
typedef std::map<string, Bytes> Image;             // file name -> contents
struct IO { char k; string f; uint64_t off; Bytes d; };   // k: W write, T truncate, S sync, D delete, C create
struct Disk {
    Image now, durable; vector<IO> pend;            // contents as a reader sees them, contents on the medium, writes not on the medium yet
    uint64_t hash() const { uint64_t h = 7; for (auto &f : now) h = fnv(fnv(h, f.first.data(), f.first.size()), f.second.data(), f.second.size()); for (auto &p : pend) h = h * 31 + p.off + p.d.size(); return h; }
};
static void doio(Image &im, const IO &e) {
    if (e.k == 'C') im[e.f];
    else if (e.k == 'D') im.erase(e.f);
    else if (e.k == 'T') { auto i = im.find(e.f); if (i != im.end()) i->second.resize(e.off); }
    else if (e.k == 'W') { Bytes &b = im[e.f]; if (b.size() < e.off + e.d.size()) b.resize(e.off + e.d.size()); memcpy(b.data() + e.off, e.d.data(), e.d.size()); }
}
static uint64_t ihash(const Image &im) { uint64_t h = 11; for (auto &f : im) { h = fnv(h, f.first.data(), f.first.size()); uint64_t n = f.second.size(); h = fnv(h, &n, 8); h = fnv(h, f.second.data(), n); } return h; }
struct T { string name, type; uint32_t count; Bytes data; bool ret; };
typedef std::map<string, T> Tags;
struct RM {
    Disk d; Tags t; std::map<string, string> cdt; int conn = 0; int restarts = 0; bool io = true, ov = false;
    uint64_t hash() const { uint64_t h = d.hash(); for (auto &x : t) { h = fnv(h, x.first.data(), x.first.size()); h = fnv(h, x.second.type.data(), x.second.type.size()); h = fnv(h, x.second.data.data(), x.second.data.size()); h = h * 31 + x.second.count * 2 + x.second.ret; } for (auto &c : cdt) h = fnv(h, c.second.data(), c.second.size()); return h * 62 + (uint64_t)restarts * 2 + ov; }
};
static RM *M; static vector<IO> *oplog; static int io_fail_at, io_count;
static bool fail_io() { io_count++; return io_fail_at && io_count >= io_fail_at; }
static void record(const IO &e) {
    if (oplog) oplog->push_back(e);
    doio(M->d.now, e);
    if (e.k == 'C' || e.k == 'D') { doio(M->d.durable, e); if (e.k == 'D') { vector<IO> n; for (auto &p : M->d.pend) if (p.f != e.f) n.push_back(p); M->d.pend = n; } }
    else if (e.k == 'S') { vector<IO> n; for (auto &p : M->d.pend) if (p.f == e.f) doio(M->d.durable, p); else n.push_back(p); M->d.pend = n; }
    else M->d.pend.push_back(e);
}
// ------------------------------------------------------------------------- SQLite VFS on it
struct VF { sqlite3_file base; char name[64]; int lock; };
struct Out { bool o; Out() : o(rt::in_target) { rt::in_target = false; } ~Out() { rt::in_target = o; } };
static Bytes *file(sqlite3_file *f) { auto i = M->d.now.find(((VF *)f)->name); return i == M->d.now.end() ? nullptr : &i->second; }
static int xClose(sqlite3_file *f) { Out o; if (!strncmp(((VF *)f)->name, "tmp#", 4)) record({'D', ((VF *)f)->name, 0, {}}); return SQLITE_OK; }
static int xRead(sqlite3_file *f, void *p, int n, sqlite3_int64 off) { Out o; Bytes *b = file(f); memset(p, 0, (size_t)n); if (!b) return SQLITE_IOERR_SHORT_READ; size_t av = (size_t)off < b->size() ? b->size() - (size_t)off : 0; if (av > (size_t)n) av = (size_t)n; if (av) memcpy(p, b->data() + off, av); return av == (size_t)n ? SQLITE_OK : SQLITE_IOERR_SHORT_READ; }
static int xWrite(sqlite3_file *f, const void *p, int n, sqlite3_int64 off) { Out o; if (fail_io()) return SQLITE_FULL; record({'W', ((VF *)f)->name, (uint64_t)off, Bytes((const uint8_t *)p, (const uint8_t *)p + n)}); return SQLITE_OK; }
static int xTruncate(sqlite3_file *f, sqlite3_int64 n) { Out o; if (fail_io()) return SQLITE_IOERR_TRUNCATE; record({'T', ((VF *)f)->name, (uint64_t)n, {}}); return SQLITE_OK; }
static int xSync(sqlite3_file *f, int) { Out o; if (fail_io()) return SQLITE_IOERR_FSYNC; record({'S', ((VF *)f)->name, 0, {}}); return SQLITE_OK; }
static int xFileSize(sqlite3_file *f, sqlite3_int64 *n) { Out o; Bytes *b = file(f); *n = b ? (sqlite3_int64)b->size() : 0; return SQLITE_OK; }
static int xLock(sqlite3_file *f, int l) { VF *v = (VF *)f; if (l > v->lock) v->lock = l; return SQLITE_OK; }
static int xUnlock(sqlite3_file *f, int l) { VF *v = (VF *)f; if (l < v->lock) v->lock = l; return SQLITE_OK; }
static int xCheckReserved(sqlite3_file *f, int *r) { *r = ((VF *)f)->lock >= SQLITE_LOCK_RESERVED; return SQLITE_OK; }
static int xControl(sqlite3_file *, int, void *) { return SQLITE_NOTFOUND; }
static int xSector(sqlite3_file *) { return 512; }
static int xDevice(sqlite3_file *) { return 0; }
static const sqlite3_io_methods IOM = {1, xClose, xRead, xWrite, xTruncate, xSync, xFileSize, xLock, xUnlock, xCheckReserved, xControl, xSector, xDevice, 0, 0, 0, 0, 0, 0};
static int vOpen(sqlite3_vfs *, const char *name, sqlite3_file *f, int flags, int *of) { Out o; VF *v = (VF *)f; memset(v, 0, sizeof *v); char tmp[32]; if (!name) { snprintf(tmp, sizeof tmp, "tmp#%zu", M->d.now.size()); name = tmp; }
    if (strlen(name) > 63) return SQLITE_CANTOPEN;
    if (!M->d.now.count(name)) { if (!(flags & SQLITE_OPEN_CREATE)) return SQLITE_CANTOPEN; if (fail_io()) return SQLITE_CANTOPEN; record({'C', name, 0, {}}); }
    strcpy(v->name, name); v->base.pMethods = &IOM; if (of) *of = flags; return SQLITE_OK; }
static int vDelete(sqlite3_vfs *, const char *name, int) { Out o; if (!M->d.now.count(name)) return SQLITE_IOERR_DELETE_NOENT; if (fail_io()) return SQLITE_IOERR_DELETE; record({'D', name, 0, {}}); return SQLITE_OK; }
static int vAccess(sqlite3_vfs *, const char *name, int, int *r) { Out o; *r = M->d.now.count(name) ? 1 : 0; return SQLITE_OK; }
static int vFull(sqlite3_vfs *, const char *name, int n, char *out) { snprintf(out, (size_t)n, "%s", name); return SQLITE_OK; }
static int vRandom(sqlite3_vfs *, int n, char *out) { for (int i = 0; i < n; i++) out[i] = (char)(i * 41 + 7); return n; }
static int vSleep(sqlite3_vfs *, int us) { return us; }
static int vTime(sqlite3_vfs *, double *t) { *t = 2460000.5; return SQLITE_OK; }
static int vTime64(sqlite3_vfs *, sqlite3_int64 *t) { *t = 212544000000000ll; return SQLITE_OK; }
static int vErr(sqlite3_vfs *, int, char *) { return 0; }
static sqlite3_vfs VFS;
// ------------------------------------------------------------------------- starting the server on an image
static rt::Snap preboot;
static void start(RM &m) { M = &m; rt::restore(preboot); srv::boot({"-v"}); m.conn = srv::connect(); Reply r = srv::reg(m.conn, "mc"); if (r.err) violation("register", "cannot register after a start: %d", r.err); }
struct TI { int idx = -1; uint32_t type = 0, count = 0; };
static const std::map<string, uint32_t> TY = {{"BOOL", DAX_BOOL}, {"BYTE", DAX_BYTE}, {"SINT", DAX_SINT}, {"CHAR", DAX_CHAR}, {"WORD", DAX_WORD}, {"INT", DAX_INT}, {"UINT", DAX_UINT}, {"DWORD", DAX_DWORD}, {"DINT", DAX_DINT}, {"UDINT", DAX_UDINT}, {"REAL", DAX_REAL}, {"LWORD", DAX_LWORD}, {"LINT", DAX_LINT}, {"ULINT", DAX_ULINT}, {"LREAL", DAX_LREAL}, {"TIME", DAX_TIME}};
static bool get(RM &m, const string &n, TI &ti, string *name = nullptr, int idx = -1) { Reply r = idx >= 0 ? srv::tag_get(m.conn, idx) : srv::tag_get(m.conn, n); if (r.err) return false; if (r.data.size() < 16) violation("protocol", "short answer to a tag query"); ti.idx = srv::i32(r.data, 0); ti.type = (uint32_t)srv::i32(r.data, 4); ti.count = (uint32_t)srv::i32(r.data, 8); if (name) *name = (const char *)&r.data[14]; return true; }
static string deftext(const Reply &r) { string s((const char *)r.data.data() + 4, r.data.size() - 4); return s.c_str(); }
static uint32_t type_of(RM &m, const string &n) { auto i = TY.find(n); if (i != TY.end()) return i->second; Reply r = srv::cdt_get(m.conn, n); if (r.err || r.data.size() < 4) return 0; return (uint32_t)srv::i32(r.data, 0); }
static Bytes readall(RM &m, int idx, size_t n) { Bytes b; while (b.size() < n) { size_t k = std::min<size_t>(n - b.size(), 2000); Reply r = srv::tread(m.conn, idx, (uint32_t)b.size(), (uint32_t)k); if (r.err || r.data.size() != k) violation("restored", "a restored tag cannot be read (%d)", r.err); b.insert(b.end(), r.data.begin(), r.data.end()); } return b; }
// one tag: 0 = absent, 1 = as in t
static bool same(RM &m, const T &t, const TI &ti, string &why) {
    uint32_t ty = type_of(m, t.type);
    if (ty == 0) { why = "its type " + t.type + " does not exist"; return false; }
    if (ti.type != ty) { why = sfmt("its type is 0x%x instead of %s", ti.type, t.type.c_str()); return false; }
    if (ti.count != t.count) { why = sfmt("it has %u elements instead of %u", ti.count, t.count); return false; }
    auto c = m.cdt.find(t.type); if (c != m.cdt.end()) { Reply r = srv::cdt_get(m.conn, ty); if (r.err || deftext(r) != c->second) { why = "the definition of " + t.type + " is different"; return false; } }
    Bytes b = readall(m, ti.idx, t.data.size()); if (b != t.data) { why = "its value is " + srv::hex(b).substr(0, 80) + " instead of " + srv::hex(t.data).substr(0, 80); return false; }
    return true;
}
// what the server restored has to be, tag by tag, one of the alternatives (a missing alternative: the tag may be absent)
static void verify(RM &m, const Tags &a, const Tags &c, const char *what) {
    std::set<string> names; for (auto &x : a) names.insert(x.first); for (auto &x : c) names.insert(x.first);
    for (auto &n : names) {
        auto i = a.find(n), j = c.find(n); bool ra = i != a.end() && i->second.ret, rc = j != c.end() && j->second.ret; S->checks++;
        if (!ra && !rc) continue;
        TI ti; string w1, w2; if (!get(m, n, ti)) { if (!ra || !rc) continue; violation("lost", "%s: the retained tag %s does not exist any more", what, n.c_str()); }
        if (rc && same(m, j->second, ti, w1)) continue;
        if (ra && same(m, i->second, ti, w2)) continue;
        violation("value", "%s: the retained tag %s came back wrong: %s%s%s", what, n.c_str(), w1.c_str(), w1.size() && w2.size() && w1 != w2 ? "; or " : "", w1 != w2 ? w2.c_str() : "");
    }
    for (int k = 0, miss = 0; k < 200 && miss < 40; k++) { string nm; TI ti; if (!get(m, "", ti, &nm, k)) { miss++; continue; } miss = 0; if (nm[0] == '_') continue; auto i = a.find(nm), j = c.find(nm); if ((i != a.end() && i->second.ret) || (j != c.end() && j->second.ret)) continue; violation("ghost", "%s: the tag %s exists although it was %s", what, nm.c_str(), i != a.end() || j != c.end() ? "not retained" : "deleted or never made"); }
}
static uint64_t n_images, n_boots;
static uint64_t thash(const Tags &t) { uint64_t h = 3; for (auto &x : t) { if (!x.second.ret) continue; h = fnv(h, x.first.data(), x.first.size()); h = fnv(h, x.second.type.data(), x.second.type.size()); h = fnv(h, x.second.data.data(), x.second.data.size()); h = h * 31 + x.second.count; } return h; }
static void crash(RM &m, const Image &im, const Tags &a, const Tags &c, const char *what, int nested) {
    n_images++;
    uint64_t h = ihash(im) * 31 + thash(a) * 17 + thash(c) * 3 + (uint64_t)nested; h = (h ^ h >> 33) * 0xff51afd7ed558ccdull; h ^= h >> 29; if (!seen_insert(h, 0)) return;
    n_boots++; pet(); outcome(h);
    vector<IO> *keep = oplog; vector<IO> log; oplog = nested ? &log : nullptr;
    RM x; x.cdt = m.cdt; x.d.now = x.d.durable = im;
    start(x); oplog = nullptr;
    verify(x, a, c, what);
    if (nested) { Image y = im; string w2 = string(what) + ", then killed again while starting";
        for (size_t i = 0; i + 1 < log.size(); i++) { doio(y, log[i]); if (log[i].k == 'S') continue; crash(m, y, a, c, w2.c_str(), 0); } }
    oplog = keep;
}
// every crash in the course of an operation that took the disk from d0 to m.d by way of log
static int g_power = 1, g_nest = 0;
static void powerloss(RM &m, const Disk &d, const Tags &a, const Tags &c, const char *what) {
    size_t n = d.pend.size(); if (!n) { crash(m, d.durable, a, c, what, 0); return; }
    auto sub = [&](std::function<int(size_t)> f) { Image im = d.durable; for (size_t i = 0; i < n; i++) { int k = f(i); if (k == 0) continue; IO e = d.pend[i]; if (k == 2 && e.k == 'W' && e.d.size() > 512) e.d.resize(std::max<size_t>(512, (e.d.size() / 1024) * 512)); if (k == 3 && e.k == 'W' && e.d.size() > 512) { size_t z = (e.d.size() / 1024) * 512; if (!z) z = 512; e.off += z; e.d.erase(e.d.begin(), e.d.begin() + (long)z); } doio(im, e); } crash(m, im, a, c, what, 0); };
    if (n <= 5) { for (unsigned s = 0; s < 1u << n; s++) sub([&](size_t i) { return (int)(s >> i & 1); }); }
    else { sub([](size_t) { return 0; }); for (size_t k = 0; k < n; k++) { sub([&](size_t i) { return (int)(i <= k); }); sub([&](size_t i) { return (int)(i == k); }); sub([&](size_t i) { return (int)(i != k); }); } }
    for (size_t k = 0; k < n; k++) for (int half = 2; half < 4; half++) { sub([&](size_t i) { return i == k ? half : 0; }); sub([&](size_t i) { return i == k ? half : i < k ? 1 : 0; }); sub([&](size_t i) { return i == k ? half : 1; }); }
}
static void crashes(RM &m, const Disk &d0, const vector<IO> &log, const Tags &before, const string &opname) {
    rt::Snap s; rt::save(s); RM &live = m; RM tmp; tmp.cdt = m.cdt; tmp.d = d0; vector<IO> *kl = oplog; oplog = nullptr;
    for (size_t i = 0; i <= log.size(); i++) {
        bool last = i == log.size(); const Tags &a = last ? live.t : before;
        string w = sfmt("killed %s I/O call %zu of %zu of \"%s\"", last ? "after" : "before", last ? i : i + 1, log.size(), opname.c_str());
        crash(m, tmp.d.now, a, live.t, w.c_str(), g_nest);
        if (g_power) { w = sfmt("machine stopped %s I/O call %zu of %zu of \"%s\"", last ? "after" : "before", last ? i : i + 1, log.size(), opname.c_str()); powerloss(m, tmp.d, a, live.t, w.c_str()); }
        if (last) break;
        M = &tmp; record(log[i]); S->checks++;
    }
    oplog = kl; rt::restore(s); M = &live;
}
// ------------------------------------------------------------------------- operations
typedef Explorer<RM> X;
static size_t width(RM &m, const string &ty) { static const std::map<string, size_t> W = {{"BYTE", 1}, {"SINT", 1}, {"CHAR", 1}, {"WORD", 2}, {"INT", 2}, {"UINT", 2}, {"DWORD", 4}, {"DINT", 4}, {"UDINT", 4}, {"REAL", 4}, {"LWORD", 8}, {"LINT", 8}, {"ULINT", 8}, {"LREAL", 8}, {"TIME", 8}}; auto i = W.find(ty); return i == W.end() ? 0 : i->second; }

static size_t bytes(RM &m, const string &ty, uint32_t n) { if (ty == "BOOL") return (n + 7) / 8; if (ty == "Env") return 14 * (size_t)n; if (ty == "Mid") return 6 * (size_t)n; if (ty == "Zed") return 16 * (size_t)n; return width(m, ty) * n; }
static bool has(const RM &m, const char *n) { return m.t.count(n) > 0; }
static TI tag(RM &m, const string &n) { TI t; if (!get(m, n, t)) violation("missing", "tag %s is not found", n.c_str()); return t; }
static Bytes pat(size_t n, int s) { Bytes r(n); for (size_t i = 0; i < n; i++) r[i] = (uint8_t)(s + (int)i * 37); return r; }
static void ok(const Reply &r, const char *what) { if (r.err) violation("refused", "%s is refused: %d", what, r.err); }
static void op(X &x, const string &name, std::function<void(RM &)> f, std::function<bool(const RM &)> e = nullptr) {
    x.add(name, [name, f](RM &m) {
        M = &m; Disk d0 = m.d; Tags before = m.t; vector<IO> log; oplog = &log; f(m); oplog = nullptr;
        crashes(m, d0, log, before, name);
    }, e);
}
static void mk(X &x, const string &n, const string &ty, uint32_t c, bool ret, bool more = false) {
    op(x, sfmt("%s %s %s[%u]%s", more ? "grow" : "add", n.c_str(), ty.c_str(), c, ret ? " retained" : ""), [=](RM &m) {
        Reply r = srv::tag_add(m.conn, n, type_of(m, ty), c, ret ? TAG_ATTR_RETAIN : 0); ok(r, "adding the tag");
        T &t = m.t[n]; t.name = n; t.type = ty; if (t.count < c) t.count = c; t.data.resize(bytes(m, ty, t.count)); t.ret |= ret; },
        [=](const RM &m) { auto i = m.t.find(n); if (i == m.t.end()) return !more && (TY.count(ty) || m.cdt.count(ty)); return i->second.type == ty && (i->second.count < c || (ret && !i->second.ret)); });
}
static void del(X &x, const string &n) { op(x, "delete " + n, [=](RM &m) { ok(srv::tag_del(m.conn, tag(m, n).idx), "deleting the tag"); m.t.erase(n); }, [=](const RM &m) { return m.t.count(n) > 0; }); }
static void wr(X &x, const string &n, size_t off, size_t len, int seed, bool all = false) {
    op(x, sfmt("write %s +%zu %zu bytes (%d)", n.c_str(), off, len, seed), [=](RM &m) { T &t = m.t[n]; size_t k = all ? t.data.size() : len; Bytes b = pat(k, seed); ok(srv::twrite(m.conn, tag(m, n).idx, (uint32_t)off, b), "writing"); memcpy(&t.data[off], b.data(), k); },
        [=](const RM &m) { auto i = m.t.find(n); return i != m.t.end() && i->second.data.size() >= off + len; });
}
static void reset_after(RM &m) { for (auto i = m.t.begin(); i != m.t.end();) if (!i->second.ret) i = m.t.erase(i); else ++i; m.restarts++; m.ov = false; }
static void known(RM &m) { for (auto i = m.cdt.begin(); i != m.cdt.end();) if (srv::cdt_get(m.conn, i->first).err) i = m.cdt.erase(i); else ++i; }   // a type no retained tag uses need not come back
static void restart(X &x) {
    x.add("kill and start", [](RM &m) { reset_after(m); Disk d0 = m.d; d0.durable = d0.now; d0.pend.clear(); m.d = d0; vector<IO> log; oplog = &log; start(m); oplog = nullptr; verify(m, m.t, m.t, "killed and started"); known(m); if (log.size()) crashes(m, d0, log, m.t, "start"); }, [](const RM &m) { return m.restarts < 3; });
    x.add("stop and start", [](RM &m) { M = &m; rt::exit_ok = true; int sig = m.restarts & 1 ? SIGINT : SIGTERM; if (!rt::signal_server(sig)) violation("signal", "signal %d is not handled by the server", sig); srv::idle(); if (!rt::server_exited()) violation("signal", "the server does not end on signal %d", sig);
        reset_after(m); m.d.durable = m.d.now; m.d.pend.clear(); start(m); verify(m, m.t, m.t, "stopped and started"); known(m); }, [](const RM &m) { return m.restarts < 3; });
}
static void init() {
    srv::load((srv::exe_dir() + "/server_ret.so").c_str());
    auto cfg = (int (*)(int, ...))rt::sym(srv::lib, "sqlite3_config"); auto reg = (int (*)(sqlite3_vfs *, int))rt::sym(srv::lib, "sqlite3_vfs_register");
    cfg(SQLITE_CONFIG_SINGLETHREAD);
    VFS.iVersion = 2; VFS.szOsFile = sizeof(VF); VFS.mxPathname = 60; VFS.zName = "mc"; VFS.xOpen = vOpen; VFS.xDelete = vDelete; VFS.xAccess = vAccess; VFS.xFullPathname = vFull; VFS.xRandomness = vRandom; VFS.xSleep = vSleep; VFS.xCurrentTime = vTime; VFS.xGetLastError = vErr; VFS.xCurrentTimeInt64 = vTime64;
    if (reg(&VFS, 1)) { fprintf(stderr, "vfs\n"); _exit(90); }
    rt::save(preboot);
}
static void setup(RM &m) { start(m); }
static const char *CD[][2] = {{"Mid", "Mid:x,INT,1:y,REAL,1"}, {"Env", "Env:b,BOOL,3:i,Mid,2:c,CHAR,1"}, {"Zed", "Zed:e,Env,1:d,INT,1"}};   // every type after the ones it contains, which no order by name gives
static void cdts(RM &m) { for (auto &c : CD) if (!m.cdt.count(c[0])) { ok(srv::cdt_create(m.conn, c[1]), "creating a type"); } for (auto &c : CD) { Reply r = srv::cdt_get(m.conn, string(c[0])); ok(r, "reading the type"); m.cdt[c[0]] = deftext(r); } }
static void run(const char *name, int depth, std::function<void(X &)> ops, std::function<void(RM &)> su = nullptr) {
    run_forked(name, [&] { init(); RM m; setup(m); if (su) su(m); X x; x.name = name; x.depth = depth; ops(x); restart(x); x.run(m); });
}
static bool scn(const char *n) { return !g_replaying || g_replay_scn == n; }
static void c13() {
    int D = thorough() ? 1 : 0; g_nest = 1;
    // a scalar and a BOOL array: creation, writes, growth, deletion, making an existing tag retained
    if (scn("life")) run("life", 4 + D, [&](X &x) { mk(x, "a", "DINT", 1, true); mk(x, "b", "BOOL", 10, true); mk(x, "n", "INT", 1, false); mk(x, "n", "INT", 1, true); wr(x, "a", 0, 4, 1); wr(x, "a", 1, 2, 90); wr(x, "b", 0, 2, 3); wr(x, "n", 0, 2, 5); mk(x, "a", "DINT", 3, false, true); mk(x, "b", "BOOL", 17, false, true); del(x, "a"); del(x, "n"); });
    // compound types, nested
    if (scn("types")) run("types", 3 + D, [&](X &x) { mk(x, "o", "Env", 2, true); mk(x, "i", "Mid", 1, true); mk(x, "p", "Env", 1, true); mk(x, "z", "Zed", 1, true); wr(x, "z", 3, 13, 5); wr(x, "o", 0, 14, 11, true); wr(x, "i", 2, 4, 17); wr(x, "o", 13, 1, 77); del(x, "o"); mk(x, "o", "Env", 3, false, true);
        op(x, "create the types", [](RM &m) { cdts(m); }, [](const RM &m) { return m.cdt.size() < 3; }); }, [](RM &m) { cdts(m); });
    // every way to write
    if (scn("writes")) run("writes", 3 + D, [&](X &x) {
        wr(x, "a", 0, 4, 1);
        op(x, "mask write a", [](RM &m) { Bytes v = pat(4, 0x5a), k = {0x0f, 0, 0xff, 0x80}; ok(srv::tmask(m.conn, tag(m, "a").idx, 0, v, k), "writing"); T &t = m.t["a"]; for (int i = 0; i < 4; i++) t.data[(size_t)i] = (uint8_t)((t.data[(size_t)i] & ~k[(size_t)i]) | (v[(size_t)i] & k[(size_t)i])); }, [](const RM &m) { return has(m, "a"); });
        op(x, "increment a", [](RM &m) { srv::H h = {tag(m, "a").idx, 0, 0, 1, 4, DAX_DINT}; ok(srv::atomic(m.conn, h, 1, Bytes{5, 0, 0, 0}), "atomic operation"); T &t = m.t["a"]; uint32_t v; memcpy(&v, t.data.data(), 4); v += 5; memcpy(t.data.data(), &v, 4); }, [](const RM &m) { return has(m, "a"); });
        op(x, "set a bit of b", [](RM &m) { ok(srv::tmask(m.conn, tag(m, "b").idx, 1, Bytes{2}, Bytes{2}), "writing"); m.t["b"].data[1] |= 2; }, [](const RM &m) { return has(m, "b"); });
        op(x, "write n, mapped to a", [](RM &m) { Bytes v = pat(4, 60 + m.restarts); ok(srv::twrite(m.conn, tag(m, "n").idx, 0, v), "writing"); m.t["n"].data = v; m.t["a"].data = v; }, [](const RM &m) { return has(m, "n"); });
        op(x, "group write a and b", [](RM &m) { int ia = tag(m, "a").idx, ib = tag(m, "b").idx; Reply r = srv::grp_add(m.conn, {{ia, 0, 0, 1, 4, DAX_DINT}, {ib, 0, 0, 8, 1, DAX_BOOL}}); ok(r, "making a group"); Bytes v = pat(5, 0x33); ok(srv::grp_write(m.conn, (uint32_t)srv::i32(r.data), v), "writing the group"); ok(srv::grp_del(m.conn, (uint32_t)srv::i32(r.data)), "deleting the group"); memcpy(m.t["a"].data.data(), v.data(), 4); m.t["b"].data[0] = v[4]; }, [](const RM &m) { return has(m, "a") && has(m, "b"); });
        op(x, "refused write of a", [](RM &m) { Reply r = srv::twrite(m.conn, tag(m, "a").idx, 2, pat(4, 1)); if (!r.err) violation("accepted", "a write beyond the end is accepted"); }, [](const RM &m) { return has(m, "a"); });
        op(x, "force a", [](RM &m) { int i = tag(m, "a").idx; ok(srv::ov_add(m.conn, i, 0, pat(4, 7), Bytes{255, 255, 255, 255}), "override"); ok(srv::ov_set(m.conn, i, 1), "override"); m.ov = true; }, [](const RM &m) { return has(m, "a") && !m.ov; });
        op(x, "release a", [](RM &m) { int i = tag(m, "a").idx; ok(srv::ov_set(m.conn, i, 0), "override"); ok(srv::ov_del(m.conn, i, 0, Bytes{255, 255, 255, 255}), "override"); m.ov = false; }, [](const RM &m) { return has(m, "a") && m.ov; });
    }, [](RM &m) { ok(srv::tag_add(m.conn, "a", DAX_DINT, 1, TAG_ATTR_RETAIN), "adding"); ok(srv::tag_add(m.conn, "b", DAX_BOOL, 10, TAG_ATTR_RETAIN), "adding"); ok(srv::tag_add(m.conn, "n", DAX_DINT, 1, 0), "adding"); m.t["a"] = {"a", "DINT", 1, Bytes(4), true}; m.t["b"] = {"b", "BOOL", 10, Bytes(2), true}; m.t["n"] = {"n", "DINT", 1, Bytes(4), false};
        ok(srv::map_add(m.conn, {tag(m, "n").idx, 0, 0, 1, 4, DAX_DINT}, {tag(m, "a").idx, 0, 0, 1, 4, DAX_DINT}), "mapping"); });
    // every type; values larger than a page of the file
    if (scn("all")) run("all", 2 + D, [&](X &x) { for (auto &t : TY) { string n = "t" + t.first; wr(x, n, 0, 1, 9, true); } wr(x, "big", 0, 3000, 1); wr(x, "big", 2990, 3000, 2); wr(x, "big", 5999, 1, 3); del(x, "big"); del(x, "tINT"); mk(x, "big", "BYTE", 9000, false, true); },
        [](RM &m) { for (auto &t : TY) { string n = "t" + t.first; uint32_t c = t.first == "BOOL" ? 9 : t.first == "LREAL" || t.first == "WORD" ? 2 : 1; ok(srv::tag_add(m.conn, n, t.second, c, TAG_ATTR_RETAIN), "adding"); m.t[n] = {n, t.first, c, Bytes(bytes(m, t.first, c)), true}; } ok(srv::tag_add(m.conn, "big", DAX_BYTE, 6000, TAG_ATTR_RETAIN), "adding"); m.t["big"] = {"big", "BYTE", 6000, Bytes(6000), true}; });
}
int main(int argc, char **argv) {
    string p = argc > 1 ? argv[1] : ""; begin(p.c_str(), argc, argv); if (p != "C13") { fprintf(stderr, "unknown property\n"); return 97; }
    c13();
    return finish("model_checking", "breadth: every sequence of the scenario's operations up to its depth; after each one the server is started on every disk image that a kill before each I/O call, or a machine stop with every considered subset of the writes not yet synchronised, can leave", {"the disk keeps what was synchronised and may lose, keep or tear any later write; creating and deleting a file is durable at once", "SQLite runs single threaded on the harness' file layer", "one server process"});
}
