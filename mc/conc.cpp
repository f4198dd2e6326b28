#include "conc.h"
namespace sched {
Log *L; dax_state *ds; int wire;
static const Scn *C; static int appco[6]; static int napp;
enum Kind { RUN, FOREIGN, SHORT, STALL, FIRE, SPUR, CRASH, IDLE };
struct Choice { int kind, id, pre, env; };
struct Pos { int last = -1, pre = 0, env = 0; int idle = 0; int prog = 0; };
static vector<Choice> trail;                                // of the current history
static string cname(int co) { for (int i = 0; i < napp; i++) if (appco[i] == co) return sfmt("app%d", i + 1); return rt::co_proc(co) == 0 ? "server" : "connection thread"; }
static string show(const Choice &c) {
    static const char *at[] = {"", "sync", "read", "write", "access"};
    switch (c.kind) { case RUN: return cname(c.id); case FOREIGN: return "other module: " + C->foreign_names[c.id]; case SHORT: return cname(c.id) + " receives only one byte"; case STALL: return cname(c.id) + " receives one byte, the rest after the timeout";
        case FIRE: return cname(c.id) + ": timed wait expires"; case SPUR: return cname(c.id) + ": spurious wakeup"; case IDLE: return "time passes"; default: return "the server dies"; } (void)at;
}
static void sync(size_t from) { for (size_t i = from; i < trail.size() && i < MAXDEPTH; i++) cur_ops[i] = trail[i].kind * 1000000 + (trail[i].id + 1) * 10000 + trail[i].pre * 100 + trail[i].env; cur_n = (int)(trail.size() < MAXDEPTH ? trail.size() : MAXDEPTH); }
static Choice decode(int v) { return {v / 1000000, v / 10000 % 100 - 1, v / 100 % 100, v % 100}; }
static bool quiescent(Pos &p);
static string trail_text() { string s; int rep = 0; string prev; for (auto &c : trail) { string t = show(c); if (t == prev) { rep++; continue; } if (!prev.empty()) s += (s.empty() ? "" : ", ") + prev + (rep ? sfmt(" x%d", rep + 1) : ""); prev = t; rep = 0; } if (!prev.empty()) s += (s.empty() ? "" : ", ") + prev + (rep ? sfmt(" x%d", rep + 1) : ""); return s; }
static bool app_done() { for (int i = 0; i < napp; i++) if (!L->done[i]) return false; return true; }
// choices at the present state
static void choices(const Pos &p, vector<Choice> &out) {
    int ids[rt::MAXCO], n = rt::enabled(ids); bool last_en = false; for (int i = 0; i < n; i++) if (ids[i] == p.last) last_en = true;
    if (last_en) out.push_back({RUN, p.last, 0, 0});
    for (int i = 0; i < n; i++) { if (ids[i] == p.last) continue; int cost = last_en && rt::co_proc(ids[i]) != 0 && rt::co_proc(p.last) != 0 ? 1 : 0; if (p.pre + cost <= C->pre) out.push_back({RUN, ids[i], cost, 0}); }
    if (L->nforeign < (int)C->foreign.size()) out.push_back({FOREIGN, L->nforeign, 0, 0});
    if (C->crash && !L->crashed) out.push_back({CRASH, 0, 0, 0});
    if (p.env < C->env) {
        for (int i = 0; i < n; i++) if (C->shortr && rt::co_proc(ids[i]) == 1 && rt::co_read_avail(ids[i]) > 1) { int cost = last_en && ids[i] != p.last ? 1 : 0; if (p.pre + cost <= C->pre) { out.push_back({SHORT, ids[i], cost, 1}); out.push_back({STALL, ids[i], cost, 1}); } }
        int best = -1; for (int i = 0; i < napp; i++) { int64_t d = rt::co_deadline(appco[i]); if (C->fire && d >= 0 && (best < 0 || d < rt::co_deadline(best))) best = appco[i]; }
        if (best >= 0) out.push_back({FIRE, best, 0, 1});
        for (int i = 0; i < napp; i++) if (C->spur && rt::co_blocked_cond(appco[i])) out.push_back({SPUR, appco[i], 0, 1});
    }
}
static void apply(Pos &p, const Choice &c) {
    S->transitions++; pet(); trail.push_back(c); sync(trail.size() - 1); p.pre += c.pre; p.env += c.env; 
    switch (c.kind) {
        case RUN: rt::run_one(c.id); p.last = c.id; break;
        case FOREIGN: C->foreign[c.id](); L->nforeign++; { int ids[rt::MAXCO], n = rt::enabled(ids); for (int i = 0; i < n; i++) if (rt::co_proc(ids[i]) == 0) rt::run_one(ids[i]); } break;   // the message has no effect before the server handles it
        case SHORT: case STALL: rt::set_shortread(c.kind == SHORT ? 1 : 2); rt::run_one(c.id); rt::set_shortread(0); p.last = c.id; break;
        case FIRE: L->fired = 1; rt::fire(c.id); break;
        case SPUR: rt::spurious(c.id); break;
        case CRASH: L->crashed = 1; rt::kill_process(0); break;
        case IDLE: quiescent(p); break;
    }
    int pr = L->nev + L->nforeign * 64 + L->crashed * 4096; for (int i = 0; i < napp; i++) pr += (L->pc[i] * 2 + L->done[i]) * (8192 << (i * 5));
    if (pr != p.prog) { p.prog = pr; p.idle = 0; }
}
// nothing can run: either everything is finished or only time can go on. true: continue
static bool quiescent(Pos &p) {
    if (L->nforeign < (int)C->foreign.size() || app_done()) return true;
    // which application threads wait, and what for?
    bool timedwait = false; int blocked = -1;
    for (int i = 0; i < napp; i++) if (!L->done[i]) { if (rt::co_deadline(appco[i]) >= 0 && L->waits_event[i]) timedwait = true; else blocked = i; }
    if (++p.idle > 12) violation("hang", "application thread %d never finishes (step %d): %s", blocked + 1, blocked >= 0 ? L->pc[blocked] : -1, rt::describe_threads().c_str());
    if (blocked >= 0 && !timedwait && rt::co_deadline(appco[blocked]) >= 0 && p.idle > 2 && !L->fired && !C->late_ok) violation("lost", "application thread %d (step %d) waits for a response that is not delivered: %s", blocked + 1, L->pc[blocked], rt::describe_threads().c_str());
    // earliest deadline, receive timeouts of the connection thread first
    int best = -1; for (int i = 0; i < rt::MAXCO; i++) { if (!rt::alive(i) || rt::co_proc(i) != 1) continue; int64_t d = rt::co_deadline(i); if (d < 0) continue; bool isapp = false; for (int k = 0; k < napp; k++) if (appco[k] == i) isapp = true; if (best < 0 || d < rt::co_deadline(best) || (d == rt::co_deadline(best) && !isapp)) best = i; }
    if (best < 0) violation("hang", "application thread %d is blocked for ever (step %d): %s", blocked + 1, blocked >= 0 ? L->pc[blocked] : -1, rt::describe_threads().c_str());
    rt::fire(best); return true;
}
static uint64_t key(const Pos &p) { return rt::hash() * 1000003 + (uint64_t)(p.last + 2) * 7919 + (uint64_t)p.idle * 104729; }
static uint64_t finals;
static void terminal() {
    rt::preemptive = false; bool r = rt::acc_points; rt::acc_points = false;
    if (!rt::run_idle()) violation("hang", "the system does not come to rest after the calls.");
    if (C->final) C->final();
    S->histories++; S->checks++; rt::preemptive = true; rt::acc_points = r;
    uint64_t h = 17; for (size_t i = 0; i < sizeof *L / 4; i++) h = h * 31 + ((const uint32_t *)L)[i]; outcome(h);
    if (S->nsamples.load() < 4) note_sample(C->name + ": " + trail_text().substr(0, 900));
}
static int rem(const Pos &p) { return (C->pre - p.pre) * 8 + (C->env - p.env); }
static void dfs(Pos p, vector<rt::Snap> *frontier, vector<std::pair<Pos, vector<Choice>>> *fpos, size_t limit);
static void go(Pos p) {
    if (S->violated.load()) return;
    if (out_of_time()) { S->capped = 1; return; }
    for (;;) {
        vector<Choice> ch; choices(p, ch);
        bool any_run = false; for (auto &c : ch) if (c.kind == RUN || c.kind == FOREIGN) any_run = true;
        if (!any_run) {
            if (app_done() && (!C->crash || L->crashed || ch.empty())) { if (ch.empty() || app_done()) { rt::Snap s; rt::save(s); size_t n = trail.size(); terminal(); rt::restore(s); trail.resize(n); return; } }
            if (app_done()) { rt::Snap s; rt::save(s); size_t n = trail.size(); terminal(); rt::restore(s); trail.resize(n); return; }
            if (ch.empty()) { apply(p, {IDLE, 0, 0, 0}); continue; }
        }
        if (ch.size() == 1 && any_run) { apply(p, ch[0]); continue; }
        if (!seen_insert(key(p) ^ ((uint64_t)p.pre << 58 | (uint64_t)p.env << 54) * 0x9E3779B97F4A7C15ull, 0)) return;
        rt::Snap s; rt::save(s); size_t n = trail.size(); Pos p0 = p;
        for (auto &c : ch) { Pos q = p0; apply(q, c); go(q); rt::restore(s); trail.resize(n); if (S->violated.load()) return; }
        if (!any_run) { Pos q = p0; apply(q, {IDLE, 0, 0, 0}); go(q); rt::restore(s); trail.resize(n); }
        return;
    }
}
struct Front { rt::Snap s; Pos p; vector<Choice> t; };
static void explore_all() {
    rt::preemptive = true;
    vector<Front> fr(1); rt::save(fr[0].s); fr[0].p = Pos(); size_t at = 0;
    while (at < fr.size() && fr.size() - at < 400 && fr.size() < 3000) {              // breadth first until there is enough work to share
        Front f = fr[at]; fr[at].s.b.clear(); fr[at].s.b.shrink_to_fit(); at++; rt::restore(f.s); trail = f.t; sync(0); Pos p = f.p; bool end = false;
        vector<Choice> ch;
        for (;;) { ch.clear(); choices(p, ch); bool any = false; for (auto &c : ch) if (c.kind == RUN || c.kind == FOREIGN) any = true; if (!any) { end = true; break; } if (ch.size() == 1) { apply(p, ch[0]); continue; } break; }
        if (end) { go(p); continue; }
        if (!seen_insert(key(p) ^ ((uint64_t)p.pre << 58 | (uint64_t)p.env << 54) * 0x9E3779B97F4A7C15ull, 0)) continue;
        rt::Snap s; rt::save(s); size_t n = trail.size();
        for (auto &c : ch) { Pos q = p; apply(q, c); fr.emplace_back(); rt::save(fr.back().s); fr.back().p = q; fr.back().t = trail; rt::restore(s); trail.resize(n); }
    }
    vector<size_t> todo; for (size_t i = at; i < fr.size(); i++) todo.push_back(i);
    // deep-first workers
    run_workers((int)todo.size(), [&](int t) { Front &f = fr[todo[t]]; rt::restore(f.s); trail = f.t; sync(0); go(f.p); });
    rt::preemptive = false;
}
void run(const Scn &sc) {
    if (const char *o = getenv("MC_ONLY")) if (*o && sc.name.find(o) != 0) return;
    if (g_replaying && g_replay_scn != sc.name) return;
    run_forked(sc.name.c_str(), [&]() {
        C = &sc; srv::load(); string so = srv::exe_dir() + "/client_race.so"; cli::load(so.c_str()); rt::acc_init(cli::lib);
        srv::boot(); wire = srv::connect(); srv::reg(wire, "wire");
        L = (Log *)api::c_malloc(sizeof(Log)); memset(L, 0, sizeof *L);
        ds = cli::open(1, "mod"); if (sc.setup) sc.setup();
        napp = (int)sc.threads.size(); static std::function<void()> fn[6];
        for (int i = 0; i < napp; i++) { fn[i] = [i]() { C->threads[i](); L->done[i] = 1; }; appco[i] = rt::spawn(1, &fn[i]); }
        cur_opname = [](int v) { return show(decode(v)); }; cur_n = 0;
        // pass 1: which accesses conflict?
        if (sc.race) {
            Scn one = sc; one.pre = sc.pre > 1 ? 1 : sc.pre; one.env = 0; one.crash = false; C = &one; rt::Snap s; rt::save(s); uint64_t tr = S->transitions, hi = S->histories, st = S->states;
            rt::acc_record = true; explore_all(); rt::acc_record = false; int n = rt::acc_analyse(); rt::restore(s); C = &sc;
            S->transitions = tr; S->histories = hi; S->states = st; memset((void *)S->table, 0, sizeof S->table); fprintf(stderr, "%s: %d racy accesses\n", sc.name.c_str(), n); rt::acc_points = true;
        }
        if (g_replaying) { rt::preemptive = true; Pos p; trail.clear(); for (int v : g_replay) { Choice c = decode(v); if (g_verbose) fprintf(stderr, "replay: %s\n", show(c).c_str()); apply(p, c); } if (app_done()) terminal(); return; }
        explore_all();
    });
}
}
