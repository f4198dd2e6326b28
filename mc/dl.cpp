#include "dl.h"
#include <getopt.h>
namespace dl {
Mark *marks; int *nmarks; int wire; void *lib; Prog prog = {"daxlua.so", "daxlua_main", "daxlua", 3}; static int (*main_fn)(int, char **); static int mainco = -1; static string dir;
struct MA { int argc; char *argv[16]; }; vector<string> args;
static void *main_thread(void *p) { MA *a = (MA *)p; main_fn(a->argc, a->argv); return nullptr; }
void load() { srv::load(); lib = rt::load((srv::exe_dir() + "/" + prog.so).c_str()); main_fn = (int (*)(int, char **))rt::sym(lib, prog.main); marks = (Mark *)rt::sym(lib, "mc_marks", false); nmarks = (int *)rt::sym(lib, "mc_nmarks", false); static int none; if (!nmarks) nmarks = &none; srv::boot(); wire = srv::connect(); srv::reg(wire, "wire"); }
void idle() { if (!rt::run_idle()) violation("hang", "the system does not come to rest (endless loop)"); }
void pass(int64_t ms) { int64_t end = *rt::now_ms + ms; idle(); for (int k = 0; k < 4000; k++) { if (*rt::now_ms >= end) return; if (!rt::fire_earliest_deadline()) return; idle(); pet(); } violation("hang", "endless activity: %s", rt::describe_threads().c_str()); }
static void put_file(const string &f, const string &t) { FILE *o = fopen(f.c_str(), "w"); if (!o) { fprintf(stderr, "cannot write %s\n", f.c_str()); _exit(97); } fputs(t.c_str(), o); fclose(o); }
void start(const string &config, const Files &f, bool wait) {
    dir = srv::exe_dir() + sfmt("/dl_%d", (int)getpid()); mkdir(dir.c_str(), 0755); string c = config; for (size_t p; (p = c.find("%D")) != string::npos;) c.replace(p, 2, dir);
    string cf = dir + "/" + prog.name + ".conf"; put_file(cf, c); for (auto &x : f) put_file(dir + "/" + x.first + ".lua", x.second);
    static MA ma; memset(&ma, 0, sizeof ma); ma.argv[ma.argc++] = strdup(prog.name); ma.argv[ma.argc++] = strdup("-C"); ma.argv[ma.argc++] = strdup(cf.c_str()); for (string a : args) { size_t p = a.find("%D"); if (p != string::npos) a.replace(p, 2, dir); ma.argv[ma.argc++] = strdup(a.c_str()); } optind = 0;
    mainco = rt::spawn_c(1, main_thread, &ma);
    if (wait) pass(400);
    else { rt::preemptive = true; int last = mainco; for (int k = 0; k < 200000; k++) { int live = 0; for (int i = 0; i < rt::MAXCO; i++) if (rt::alive(i) && rt::co_proc(i) == 1) live++; if (live >= prog.threads) break; int ids[rt::MAXCO], n = rt::enabled(ids), pick = -1; for (int i = 0; i < n; i++) if (ids[i] == last) pick = last; if (pick < 0 && n) pick = ids[0]; if (pick < 0) break; rt::run_one(pick); last = pick; } rt::preemptive = false; }
    for (auto &x : f) unlink((dir + "/" + x.first + ".lua").c_str()); unlink(cf.c_str()); rmdir(dir.c_str());
}
bool running() { return mainco >= 0 && rt::alive(mainco); }
int count(int id) { int n = 0; for (int i = 0; i < *nmarks; i++) if (marks[i].id == id) n++; return n; }
std::vector<string> texts(int id) { std::vector<string> v; for (int i = 0; i < *nmarks; i++) if (marks[i].id == id) v.push_back(marks[i].t); return v; }
int tag(const string &n, uint32_t ty, uint32_t c, uint32_t attr) { auto r = srv::tag_add(wire, n, ty, c, attr); if (r.err) violation("refused", "tag %s: error %d", n.c_str(), r.err); return srv::i32(r.data); }
void put(int i, const Bytes &d, uint32_t off) { auto r = srv::twrite(wire, i, off, d); if (r.err) violation("refused", "writing tag %d: error %d", i, r.err); idle(); }
static void server_runs() { int ids[rt::MAXCO], n = rt::enabled(ids); for (int i = 0; i < n; i++) if (rt::co_proc(ids[i]) == 0) rt::run_one(ids[i]); }
void send_raw(uint32_t cmd, const Bytes &b) { Bytes f = srv::frame(cmd, b); rt::net_send(wire, f.data(), f.size()); server_runs(); }
void send(int i, const Bytes &d, uint32_t off) { srv::B b; b.u32((uint32_t)i).u32(off).v(d); send_raw(MSG_TAG_WRITE, b); }
Bytes get(int i, uint32_t off, uint32_t n) { auto r = srv::tread(wire, i, off, n); if (r.err) violation("refused", "reading tag %d: error %d", i, r.err); return r.data; }
// ---- schedules
static const Scn *C; enum { RUN, FOREIGN };
struct Choice { int kind, id, pre; }; struct Pos { int last = -1, pre = 0, nf = 0; };
static vector<Choice> trail;
static string cname(int co) { return rt::co_proc(co) == 0 ? "server" : co == mainco ? "main thread" : sfmt("thread %d", co); }
static string show(const Choice &c) { return c.kind == FOREIGN ? "other module: " + C->names[c.id] : cname(c.id); }
static Choice decode(int v) { return {v / 1000000, v / 10000 % 100, v / 100 % 100}; }
static void sync(size_t from) { for (size_t i = from; i < trail.size() && i < MAXDEPTH; i++) cur_ops[i] = trail[i].kind * 1000000 + trail[i].id * 10000 + trail[i].pre * 100; cur_n = (int)(trail.size() < MAXDEPTH ? trail.size() : MAXDEPTH); }
static string text() { string s, prev; int rep = 0; auto fl = [&]() { if (!prev.empty()) s += (s.empty() ? "" : ", ") + prev + (rep ? sfmt(" x%d", rep + 1) : ""); }; for (auto &c : trail) { string t = show(c); if (t == prev) { rep++; continue; } fl(); prev = t; rep = 0; } fl(); return s; }
static void choices(const Pos &p, vector<Choice> &out) {
    int ids[rt::MAXCO], n = rt::enabled(ids); for (int i = 0; i < n; i++) if (rt::co_proc(ids[i]) == 0) { out.push_back({RUN, ids[i], 0}); return; }   // the server answers at once: its timing is explored by C16
    bool last_en = false; for (int i = 0; i < n; i++) if (ids[i] == p.last) last_en = true;
    if (last_en) out.push_back({RUN, p.last, 0});
    for (int i = 0; i < n; i++) { if (ids[i] == p.last) continue; int cost = last_en ? 1 : 0; if (p.pre + cost <= C->pre) out.push_back({RUN, ids[i], cost}); }
    if (p.nf < (int)C->foreign.size()) out.push_back({FOREIGN, p.nf, 0});
}
static void apply(Pos &p, const Choice &c) {
    S->transitions++; pet(); trail.push_back(c); sync(trail.size() - 1); p.pre += c.pre;
    if (c.kind == RUN) { rt::run_one(c.id); if (rt::co_proc(c.id) != 0) p.last = c.id; } else { C->foreign[c.id](); p.nf++; }
}
static void terminal() {
    rt::preemptive = false; pass(C->settle); if (!running()) violation("died", "the module has ended");
    for (auto &r : srv::drain(wire)) if (r.err) violation("refused", "another module's request fails with error %d", r.err);
    C->final(); S->histories++; S->checks++; rt::preemptive = true;
    uint64_t h = 17; for (int i = 0; i < *nmarks; i++) { h = h * 31 + (uint64_t)marks[i].id; for (char *t = marks[i].t; *t; t++) h = h * 131 + (uint64_t)*t; } outcome(h);
    if (S->nsamples.load() < 4) note_sample(C->name + ": " + text().substr(0, 900));
}
static uint64_t key(const Pos &p) { return rt::hash() * 1000003 + (uint64_t)(p.last + 2) * 7919 + (uint64_t)p.nf * 104729 + (uint64_t)p.pre * 15485863; }
static void go(Pos p) {
    for (;;) {
        if (S->violated.load()) return;
        if (out_of_time()) { S->capped = 1; return; }
        vector<Choice> ch; choices(p, ch);
        if (ch.empty()) { rt::Snap s; rt::save(s); terminal(); rt::restore(s); return; }
        if (ch.size() == 1) { apply(p, ch[0]); continue; }
        if (!seen_insert(key(p), 0)) return;
        rt::Snap s; rt::save(s); size_t n = trail.size(); Pos p0 = p;
        for (auto &c : ch) { Pos q = p0; apply(q, c); go(q); rt::restore(s); trail.resize(n); if (S->violated.load()) return; }
        return;
    }
}
struct Front { rt::Snap s; Pos p; vector<Choice> t; };
static void explore_all() {
    rt::preemptive = true; vector<Front> fr(1); rt::save(fr[0].s); size_t at = 0;
    while (at < fr.size() && fr.size() - at < 200 && fr.size() < 3000) {
        Front f = fr[at]; fr[at].s.b.clear(); fr[at].s.b.shrink_to_fit(); at++; rt::restore(f.s); trail = f.t; sync(0); Pos p = f.p; vector<Choice> ch;
        for (;;) { ch.clear(); choices(p, ch); if (ch.size() != 1) break; apply(p, ch[0]); }
        if (ch.empty()) { terminal(); continue; }
        if (!seen_insert(key(p), 0)) continue;
        rt::Snap s; rt::save(s); size_t n = trail.size();
        for (auto &c : ch) { Pos q = p; apply(q, c); fr.emplace_back(); rt::save(fr.back().s); fr.back().p = q; fr.back().t = trail; rt::restore(s); trail.resize(n); }
    }
    size_t base = at; if (base < fr.size()) run_workers((int)(fr.size() - base), [&](int t) { Front &f = fr[base + (size_t)t]; rt::restore(f.s); trail = f.t; sync(0); go(f.p); });
    rt::preemptive = false;
}
void run(const Scn &sc) {
    if (const char *o = getenv("MC_ONLY")) if (*o && sc.name.find(o) != 0) return;
    if (g_replaying && g_replay_scn != sc.name) return;
    run_forked(sc.name.c_str(), [&]() {
        C = &sc; load(); if (sc.setup) sc.setup(); cur_opname = [](int v) { return show(decode(v)); }; cur_n = 0; trail.clear(); snprintf(cur_scn, sizeof cur_scn, "%s", sc.name.c_str());
        start(sc.conf, sc.files, !sc.from_start); if (sc.ready) sc.ready();
        if (g_replaying) { rt::preemptive = true; Pos p; for (int v : g_replay) { Choice c = decode(v); if (g_verbose) fprintf(stderr, "replay: %s\n", show(c).c_str()); apply(p, c); } vector<Choice> ch; choices(p, ch); if (ch.empty()) terminal(); return; }
        explore_all();
    });
}
}
