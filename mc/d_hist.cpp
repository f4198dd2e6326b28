// C28: what the historical logger records.
#include "dl.h"
#include <math.h>
#include <time.h>
using namespace dl;
struct File { int open; long written, flushed; char name[200]; char d[6000]; };
static File *files; static int *nfiles, *exited; static int (*query)(const char *, char *, int); static void (*term)(int); static bool sqlite;
static int sigact(int sig, const struct sigaction *a, struct sigaction *) { if (sig == SIGTERM && a) term = a->sa_handler; return 0; }
static void on_exit_(int c) { *exited = 1 + c; for (;;) rt::ext_call(99); }
static void after_load() {
    rt::sigaction_hook = sigact; rt::exit_hook = on_exit_;
    files = (File *)rt::sym(lib, "mc_files"); nfiles = (int *)rt::sym(lib, "mc_nfiles"); exited = (int *)rt::sym(lib, "mc_exited"); query = (int (*)(const char *, char *, int))rt::sym(lib, "mc_query");
    ((void (*)())rt::sym(lib, "mc_open_pool"))(); ((int (*)(int, ...))rt::sym(lib, "sqlite3_config"))(1 /* single thread: only the module's main thread uses it */);
}
static void hload() { prog = {"histlog.so", "histlog_main", "histlog", 2}; load(); after_load(); }
static string conf(const string &tags, double flush = 0.4, double purge = 0) { return sfmt("plugin = \"plugins/%s.so\"\ndirectory = \"%%D\"\nfilename = \"x.db\"\nrotate_tag = \"hr\"\nflush_interval = %g\n", sqlite ? "sqlite/libdhl_sqlite" : "file/libdhl_file", flush) + (purge > 0 ? sfmt("purge_interval = \"%g\"\n", purge) : "") + tags; }
struct Rec { string tag; double t; string v; };
static vector<Rec> recorded() {
    vector<Rec> r; string all;
    if (sqlite) { static char b[65536]; if (query("SELECT Tags.tagname, Data.timestamp, Data.data FROM Data JOIN Tags ON Tags.id = Data.tagid ORDER BY Data.id", b, sizeof b)) violation("database", "the records cannot be read from the database"); all = b; }
    else for (int i = 0; i < *nfiles; i++) { if (files[i].written >= (long)sizeof files[i].d) violation("size", "log file too long"); all.append(files[i].d, (size_t)files[i].written); }
    char sep = sqlite ? '|' : ',';
    for (size_t p = 0; p < all.size();) { size_t e = all.find('\n', p); if (e == string::npos) violation("format", "the log ends in an unfinished line \"%s\"", all.substr(p).c_str()); string l = all.substr(p, e - p); p = e + 1; size_t a = l.find(sep), b = a == string::npos ? a : l.find(sep, a + 1); if (b == string::npos) violation("format", "line \"%s\" in the log", l.c_str()); char *end; string ts = l.substr(a + 1, b - a - 1); double t = strtod(ts.c_str(), &end); if (*end || ts.empty()) violation("format", "time \"%s\" in the log", ts.c_str()); r.push_back({l.substr(0, a), t, l.substr(b + 1)}); }
    return r;
}
static double sec() { return (double)*rt::now_ms / 1000.0; }
// values
static long double number(uint32_t ty, const Bytes &b) {
    auto u = [&](int n) { uint64_t x = 0; memcpy(&x, b.data(), (size_t)n); return x; };
    switch (ty) { case DAX_BOOL: return (long double)(b[0] & 1); case DAX_BYTE: return (long double)b[0]; case DAX_SINT: case DAX_CHAR: return (long double)(int8_t)b[0]; case DAX_INT: return (long double)(int16_t)u(2); case DAX_UINT: case DAX_WORD: return (long double)u(2); case DAX_DINT: return (long double)(int32_t)u(4); case DAX_UDINT: case DAX_DWORD: return (long double)u(4); case DAX_LINT: case DAX_TIME: return (long double)(int64_t)u(8); case DAX_ULINT: case DAX_LWORD: return (long double)u(8); case DAX_REAL: { float f; memcpy(&f, b.data(), 4); return (long double)f; } default: { double d; memcpy(&d, b.data(), 8); return (long double)d; } }
}
static bool same(uint32_t ty, const Bytes &b, const string &s) {
    long double n = number(ty, b); char *e; if (s.empty()) return false;
    if (ty == DAX_CHAR) return s.size() == 1 && s[0] == (char)b[0];
    if (ty == DAX_TIME) { int y, mo, d, h, mi, se, ms; if (sscanf(s.c_str(), "%d-%d-%dT%d:%d:%d.%3d", &y, &mo, &d, &h, &mi, &se, &ms) != 7) return false; struct tm tm; memset(&tm, 0, sizeof tm); tm.tm_year = y - 1900; tm.tm_mon = mo - 1; tm.tm_mday = d; tm.tm_hour = h; tm.tm_min = mi; tm.tm_sec = se; return (long double)((int64_t)timegm(&tm) * 1000 + ms) == n; }
    if (ty == DAX_REAL) return strtof(s.c_str(), &e) == (float)n && !*e; if (ty == DAX_LREAL) return strtod(s.c_str(), &e) == (double)n && !*e;
    if (sqlite && n > 9.2e18L) return strtod(s.c_str(), &e) == (double)n;           // larger than SQLite's integers
    return strtold(s.c_str(), &e) == n && !*e && s.find_first_of(".en") == string::npos;
}
enum { W_, C_ };
struct Pt { double lo, hi; bool null, opt; Bytes v; };
struct Lt { string tag; uint32_t ty = DAX_INT; int trig = W_; double thr = 0, to = 0; bool on = false, good = true; double last = 0; Bytes cmp, lastv; vector<Pt> p;
    void add(const Bytes &v, double lo, double hi) { on = true; p.push_back({lo, hi, true, false, {}}); p.push_back({lo, hi, false, false, v}); cmp = v; last = hi; }
    void ev(const Bytes &v) {
        if (!on) return; double T = sec();
        if (to > 0 && T - last > to) { if (!good && trig == C_) p.push_back({last, last, false, true, lastv}); p.push_back({last, T, true, false, {}}); p.push_back({T, T, false, false, v}); cmp = v; good = true; last = T; return; }
        if (trig == W_) p.push_back({T, T, false, false, v});
        else if (fabsl(number(ty, v) - number(ty, cmp)) >= (long double)thr) { if (!good) p.push_back({last, last, false, false, lastv}); good = true; p.push_back({T, T, false, false, v}); cmp = v; }
        else { lastv = v; good = false; }
        last = T;
    }
    void end(double lo, double hi) { if (on) p.push_back({lo, hi, true, false, {}}); }
};
static string show(const Lt &l, const vector<Rec> &r) { string s = "recorded:"; for (auto &x : r) s += sfmt(" %.3f:%s", x.t, x.v.c_str()); s += "; expected:"; for (auto &q : l.p) s += sfmt(" %s%.3f:%s", q.opt ? "?" : "", q.hi, q.null ? "NULL" : sfmt("%.17Lg", number(l.ty, q.v)).c_str()); return s; }
static void compare(const vector<Lt> &L, double from = 0) {
    auto all = recorded(); std::set<string> known;
    for (auto &l : L) {
        known.insert(l.tag); vector<Rec> r; for (auto &x : all) if (x.tag == l.tag) r.push_back(x); size_t k = 0; const double eps = 0.0011;
        auto fits = [&](const Pt &q, const Rec &x) { return x.t >= q.lo - eps && x.t <= q.hi + eps && (q.null ? x.v == "NULL" : x.v != "NULL" && same(l.ty, q.v, x.v)); };
        for (auto &q : l.p) { if (q.hi < from) continue; if (k < r.size() && fits(q, r[k])) { k++; continue; } if (q.opt || q.lo < from) continue; violation("records", "tag %s: point %s at %.3f is missing or wrong (%s)", l.tag.c_str(), q.null ? "NULL" : sfmt("%.17Lg", number(l.ty, q.v)).c_str(), q.hi, show(l, r).c_str()); }
        if (k < r.size()) violation("records", "tag %s: unexpected point %s at %.3f (%s)", l.tag.c_str(), r[k].v.c_str(), r[k].t, show(l, r).c_str());
    }
    for (auto &x : all) if (!known.count(x.tag)) violation("records", "a point of \"%s\", which is not recorded", x.tag.c_str()); S->checks++;
}
static void finish_(vector<Lt> &L, double from = 0) {
    double T = sec(); if (!term) violation("signal", "SIGTERM is not handled"); if (!running()) violation("died", "the module has ended"); bool o = rt::in_target; rt::in_target = true; term(SIGTERM); rt::in_target = o; pass(3000); if (!*exited) violation("exit", "the module does not end after SIGTERM");
    for (auto &l : L) l.end(T, T + 2.5); compare(L, from); if (!sqlite) for (int i = 0; i < *nfiles; i++) if (files[i].flushed != files[i].written) violation("flush", "data is left in the buffer at exit");
}
struct HM { vector<Lt> l; int files = 1; int rot = 0; bool late = false; int nv = 0; uint64_t hash() const { uint64_t h = (uint64_t)(late + 2 * nv); for (auto &x : l) h = h * 131 + x.p.size() * 7 + (uint64_t)(x.last * 1000); return h; } };
typedef Explorer<HM> HX;
static Bytes i2(int v) { return by({v, v >> 8}); }
static Bytes i4(int v) { return by({v, v >> 8, v >> 16, v >> 24}); }
static int cur(const Bytes &b) { return b.size() == 2 ? (int16_t)(b[0] | b[1] << 8) : b[0] | b[1] << 8 | b[2] << 16 | b[3] << 24; }
static int tid[6], thr_;
static void history(const string &nm, bool sq, int depth) {
    if (const char *o = getenv("MC_ONLY")) if (*o && nm.find(o) != 0) return;
    run_forked(nm.c_str(), [=]() {
        sqlite = sq; hload(); tid[0] = tag("w", DAX_INT, 1); tid[1] = tag("c", DAX_INT, 1); tid[2] = tag("ct", DAX_DINT, 1); tid[3] = tag("wt", DAX_DINT, 3);
        put(tid[1], i2(100)); HM m;
        auto mk = [&](const char *n, uint32_t ty, int tr, double th, double to) { Lt l; l.tag = n; l.ty = ty; l.trig = tr; l.thr = th; l.to = to; m.l.push_back(l); };
        mk("w", DAX_INT, W_, 0.03, 0); mk("c", DAX_INT, C_, 10, 0); mk("ct", DAX_DINT, C_, 5, 2.5); mk("wt[1]", DAX_DINT, W_, 1, 2.5); mk("l", DAX_INT, C_, 2, 0);
        double t0 = sec(); start(conf("add_tag(\"w\", WRITE, 0.03, 0.0, \"\")\nadd_tag(\"c\", CHANGE, 10.0, 0.0, \"fit=LINEAR\")\nadd_tag(\"ct\", CHANGE, 5, 2.5, \"\")\nadd_tag(\"wt[1]\", WRITE, 1, 2.5, \"\")\nadd_tag(\"l\", CHANGE, 2, 0, \"\")\n"), {});
        for (int i = 0; i < 4; i++) { double T = sec(); auto r = recorded(); bool f = false; for (auto &x : r) if (x.tag == m.l[(size_t)i].tag && !f) { T = x.t; f = true; } m.l[(size_t)i].add(i == 1 ? i2(100) : i < 1 ? i2(0) : i4(0), t0, T); m.l[(size_t)i].last = T; }
        HX x; x.name = nm; x.depth = depth; x.sweep = [](HM &m) { compare(m.l); if (!running()) violation("died", "the module has ended"); };
        auto wr = [](HM &m, int i, int d) { Bytes b = get(tid[i], i == 3 ? 4 : 0, i < 2 || i == 4 ? 2 : 4); int v = cur(b) + d; Bytes n = i < 2 || i == 4 ? i2(v) : i4(v); put(tid[i], n, i == 3 ? 4 : 0); m.l[(size_t)i].ev(n); };
        x.add("w +1", [wr](HM &m) { wr(m, 0, 1); }); x.add("w again", [wr](HM &m) { wr(m, 0, 0); });
        for (int d : {4, 10, -9}) x.add(sfmt("c %+d", d), [wr, d](HM &m) { wr(m, 1, d); });
        for (int d : {2, -6}) x.add(sfmt("ct %+d", d), [wr, d](HM &m) { wr(m, 2, d); });
        x.add("w three times", [](HM &m) { int v = cur(get(tid[0], 0, 2)); for (int k = 1; k <= 3; k++) { send(tid[0], i2(v - k)); } idle(); for (auto &r : srv::drain(wire)) if (r.err) violation("refused", "a write fails"); for (int k = 1; k <= 3; k++) m.l[0].ev(i2(v - k)); });
        x.add("wt[1] +1", [wr](HM &m) { wr(m, 3, 1); }); x.add("wt[0]", [](HM &m) { put(tid[3], i4(77)); });
        x.add("l -1 or l created", [wr](HM &m) {
            if (m.late) { wr(m, 4, -1); return; }
            double T = sec(); m.late = true; tid[4] = tag("l", DAX_INT, 1); put(tid[4], i2(31)); bool f = false;
            for (int k = 0; k < 16 && !f; k++) { pass(1000); for (auto &r : recorded()) if (r.tag == "l") f = true; } if (!f) violation("late tag", "a tag that is created later is not recorded within 16 s"); m.l[4].add(i2(31), T, sec()); for (auto &r : recorded()) if (r.tag == "l") m.l[4].last = r.t; });
        x.add("1.013 s", [](HM &) { *rt::now_ms += 13; pass(1000); }); x.add("3.1 s", [](HM &m) { pass(3100); if (!sqlite) for (int i = 0; i < *nfiles; i++) if (files[i].flushed != files[i].written) violation("flush", "data is still in the buffer after several flush intervals"); });
        if (!sq) x.add("rotate", [](HM &m) {
            auto r = srv::tag_get(wire, string("hr")); if (r.err) violation("rotate", "the rotation tag does not exist (error %d)", r.err); int h = srv::i32(r.data); put(h, by({1})); pass(3000); m.files++;
            if (*nfiles != m.files) violation("rotate", "%d files after %d rotations", *nfiles, m.files - 1); for (int i = 0; i < *nfiles; i++) { if (files[i].open != (i == *nfiles - 1)) violation("rotate", "log file %d is %s", i, files[i].open ? "still open" : "closed"); for (int k = 0; k < i; k++) if (!strcmp(files[i].name, files[k].name)) violation("rotate", "the same file is opened again"); } if (files[*nfiles - 1].written) violation("rotate", "the new file is not empty"); if (get(h, 0, 1)[0] & 1) violation("rotate", "the rotation tag stays set"); }, [](const HM &m) { return m.files < 5; });
        x.leaf = [](HM &m) { finish_(m.l); };
        x.run(m);
    });
}
// every type: which differences reach the threshold, and how values are written
static void types(bool sq) {
    string nm = sq ? "types-sqlite" : "types-file"; if (const char *o = getenv("MC_ONLY")) if (*o && nm.find(o) != 0) return;
    struct T { const char *n; uint32_t ty; int sz; bool fl; vector<long double> v; double thr[3]; };
    static const vector<T> ts = {{"bo", DAX_BOOL, 1, false, {0, 1}, {1, 0.5, 2}}, {"by", DAX_BYTE, 1, false, {0, 3, 200, 255}, {1, 4, 150}}, {"si", DAX_SINT, 1, false, {-128, -3, 0, 127}, {1, 4, 200}}, {"ch", DAX_CHAR, 1, false, {'A', 'b', 'z'}, {1, 30, 40}},
        {"in", DAX_INT, 2, false, {-32768, -3, 0, 32767}, {1, 4, 40000}}, {"ui", DAX_UINT, 2, false, {0, 3, 32768, 65535}, {1, 4, 40000}}, {"wo", DAX_WORD, 2, false, {0, 3, 32768, 65535}, {1, 4, 40000}},
        {"di", DAX_DINT, 4, false, {-2147483648.0L, -3, 0, 2147483647.0L}, {1, 4, 3e9}}, {"ud", DAX_UDINT, 4, false, {0, 3, 2147483648.0L, 4294967295.0L}, {1, 4, 3e9}}, {"dw", DAX_DWORD, 4, false, {0, 3, 2147483648.0L, 4294967295.0L}, {1, 4, 3e9}},
        {"li", DAX_LINT, 8, false, {-9223372036854775807.0L, -3, 0, 9223372036854775807.0L}, {1, 4, 1e19}}, {"ul", DAX_ULINT, 8, false, {0, 3, 9223372036854775808.0L, 18446744073709551615.0L}, {1, 4, 1e19}}, {"lw", DAX_LWORD, 8, false, {0, 3, 9223372036854775808.0L, 18446744073709551615.0L}, {1, 4, 1e19}},
        {"ti", DAX_TIME, 8, false, {0, 5, 4294967296.0L, 1700000000123.0L}, {1, 6, 1e12}}, {"re", DAX_REAL, 4, true, {-1.5L, 0, 2.25L, 1099511627776.0L}, {1, 2, 1e9}}, {"lr", DAX_LREAL, 8, true, {-1.5L, 0, 2.25L, 1099511627776.5L}, {1, 2, 1e9}}};
    static int id; static const T *t;
    for (auto &ty : ts) run_forked((nm + "-" + ty.n).c_str(), [=, &ty]() {
        sqlite = sq; hload(); t = &ty; id = tag(ty.n, ty.ty, 8); int id2 = tag("pad", DAX_INT, 1); (void)id2;
        HM m; string c; for (int i = 0; i < 4; i++) { Lt l; l.tag = sfmt("%s[%d]", ty.n, i + 2); l.ty = ty.ty; l.trig = i == 3 ? W_ : C_; l.thr = ty.thr[i % 3]; m.l.push_back(l); c += sfmt("add_tag(\"%s\", %s, %.17g, 0, \"\")\n", l.tag.c_str(), i == 3 ? "WRITE" : "CHANGE", l.thr); }
        Bytes z((size_t)ty.sz, ty.ty == DAX_CHAR ? 'A' : 0); if (z[0]) put(id, Bytes(8, z[0])); double t0 = sec(); start(conf(c), {}); for (auto &l : m.l) l.add(z, t0, sec());
        static auto enc = [](long double v) { Bytes b((size_t)t->sz); if (t->ty == DAX_REAL) { float f = (float)v; memcpy(b.data(), &f, 4); } else if (t->ty == DAX_LREAL) { double f = (double)v; memcpy(b.data(), &f, 8); } else if (v < 0) { int64_t x = (int64_t)v; memcpy(b.data(), &x, (size_t)t->sz); } else { uint64_t x = (uint64_t)v; memcpy(b.data(), &x, (size_t)t->sz); } return b; };
        HX x; x.name = nm + "-" + ty.n; x.depth = thorough() ? 5 : 4; x.sweep = [](HM &m) { compare(m.l); };
        for (size_t i = 0; i < ty.v.size(); i++) x.add(sfmt("%.20Lg", ty.v[i]), [i](HM &m) {
            Bytes v = enc(t->v[i]); if (t->ty == DAX_BOOL) put(id, by({v[0] ? 0x3C : 0}), 0); else { Bytes a; for (int k = 0; k < 4; k++) a.insert(a.end(), v.begin(), v.end()); put(id, a, (uint32_t)(2 * t->sz)); } for (auto &l : m.l) l.ev(v); });
        if (sq) { static char b[4096]; for (auto &l : m.l) { if (query(sfmt("SELECT type FROM Tags WHERE tagname = '%s'", l.tag.c_str()).c_str(), b, sizeof b) || (uint32_t)atoi(b) != ty.ty) violation("type", "the database gives the type of %s as %s, it is %u", l.tag.c_str(), b, ty.ty); } }
        x.leaf = [](HM &m) { finish_(m.l); };
        x.run(m);
    });
}
// tags that cannot be recorded, or never appear
static void others() {
    run_forked("other-tags", [=]() {
        sqlite = false; hload(); Bytes d = by({0}); srv::B b; auto r = srv::cdt_create(wire, "Pt:a,INT,1:b,REAL,1:"); if (r.err) violation("refused", "type: error %d", r.err); uint32_t ty = (uint32_t)srv::i32(r.data); int a = tag("p", ty, 1), bb = tag("arr", DAX_INT, 4); (void)d;
        vector<Lt> L(2); L[0].tag = "p.a"; L[0].ty = DAX_INT; L[1].tag = "arr"; L[1].ty = DAX_INT; double t0 = sec();
        start(conf("add_tag(\"p\", CHANGE, 1, 0, \"\")\nadd_tag(\"nosuch\", WRITE, 1, 0, \"\")\nadd_tag(\"p.a\", WRITE, 1, 0, \"\")\nadd_tag(\"nosuch2\", CHANGE, 1, 2, \"\")\nadd_tag(\"arr\", WRITE, 1, 0, \"\")\n"), {});
        for (auto &l : L) l.add(i2(0), t0, sec());
        put(a, i2(5)); L[0].ev(i2(5)); put(bb, i2(9)); L[1].ev(i2(9)); put(bb, by({1, 0}), 4); compare(L); pass(5000); compare(L); finish_(L); S->transitions += 3; S->histories++;
    });
}
// old data is removed, new data is not
static void purge() {
    run_forked("purge", [=]() {
        sqlite = true; hload(); tid[0] = tag("w", DAX_INT, 1); vector<Lt> L(1); L[0].tag = "w"; L[0].ty = DAX_INT; double t0 = sec(); start(conf("add_tag(\"w\", WRITE, 1, 0, \"\")\n", 0.4, 6), {}); L[0].add(i2(0), t0, sec());
        for (int i = 1; i <= 12; i++) { put(tid[0], i2(i)); L[0].ev(i2(i)); pass(1000); double keep = sec() - 6, gone = keep - 3.5; for (auto &x : recorded()) if (x.t < gone) violation("purge", "a point of %.1f s ago is still in the database, purge_interval is 6 s", sec() - x.t);
            vector<Rec> r = recorded(); for (auto &p : L[0].p) if (p.lo > keep && !p.null) { bool f = false; for (auto &x : r) if (x.v != "NULL" && same(DAX_INT, p.v, x.v)) f = true; if (!f) violation("purge", "a point of %.1f s ago is no longer in the database, purge_interval is 6 s", sec() - p.hi); } S->transitions++; S->checks++; }
        S->histories++;
    });
}
// a write while the logger starts is not lost
static void schedules() {
    for (int k = 0; k < 2; k++) { Scn s; s.name = k ? "start-change" : "start-write"; sqlite = false; prog = {"histlog.so", "histlog_main", "histlog", 2}; s.conf = conf(sfmt("add_tag(\"w\", %s, 2, 0, \"\")\n", k ? "CHANGE" : "WRITE")); s.from_start = true; s.pre = thorough() ? 2 : 1; s.settle = 6000;
        s.setup = [] { after_load(); tid[0] = tag("w", DAX_INT, 1); }; for (int i = 1; i <= 2; i++) { s.foreign.push_back([i] { send(tid[0], i2(i * 5)); }); s.names.push_back(sfmt("write w = %d", i * 5)); }
        s.final = [] { vector<string> v; for (auto &x : recorded()) if (x.tag == "w") v.push_back(x.v); string all; for (auto &q : v) all += " " + q; if (v.size() < 2 || v[0] != "NULL") violation("records", "the log begins with%s", all.c_str()); vector<int> n; for (size_t i = 1; i < v.size(); i++) n.push_back(v[i] == "0" ? 0 : v[i] == "5" ? 1 : v[i] == "10" ? 2 : 9);
            int want = n[0]; for (size_t i = 1; i < n.size(); i++) { if (n[i] == 9 || (i > 1 && n[i] < n[i - 1])) violation("records", "log:%s", all.c_str()); if (n[i] == want + 1) want++; }     // the first value is read, the others are reported: each write after the one that was read
            if (want != 2 || n.back() != 2) violation("lost", "5 and 10 were written while the logger started, but the log has only:%s", all.c_str()); };
        run(s); }
}
static void f() { history("file", false, thorough() ? 6 : 5); history("sqlite", true, thorough() ? 5 : 4); types(false); types(true); others(); purge(); schedules(); }
static Reg r28("C28", f, "every sequence up to the depth of writes with changes below, at and above the threshold, of pauses below and above the timeout, of the late creation of a tag and of file rotation, followed by SIGTERM, with the real file and SQLite plugins; every sequence of extreme values of every type with three thresholds; purging; tags that cannot be recorded; every schedule (preemption bounded) of two writes during the logger's start, against a model of the points that must be recorded");
