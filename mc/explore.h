// Explicit-state explorer over the real implementation (see rt.h) plus a reference model M.
// Every operation sequence up to the depth bound is executed; states (complete implementation memory
// + model) already expanded with at least the same remaining depth are not expanded again.
#pragma once
#include "rt.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <atomic>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <functional>

namespace ex {
using std::string; using std::vector;
enum { MAXDEPTH = 4096, TBL_BITS = 23 };
struct Shared {
    std::atomic<uint64_t> transitions, states, histories, nexttask, checks, outcomes_n, deepest;
    std::atomic<int> violated; std::atomic<int> capped;
    char scenario[128]; char kind[64]; char detail[4096]; char trace[65536];
    int ops[MAXDEPTH]; int nops; char samples[4][1024]; std::atomic<int> nsamples;
    std::atomic<uint64_t> outcome[4096];
    std::atomic<uint64_t> table[1u << TBL_BITS];
};
extern Shared *S;
extern string g_prop, g_tier, g_outdir; extern int g_workers; extern double g_budget; // seconds for the whole check
extern int g_replay_n; extern vector<int> g_replay; extern string g_replay_scn;
extern bool g_replaying, g_verbose;
extern vector<string> cur_names; extern int cur_ops[MAXDEPTH]; extern int cur_n; extern char cur_scn[128];
extern std::function<string(int)> cur_opname;

double now();
string sfmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
// report a property violation for the current history; never returns
[[noreturn]] void violation(const char *kind, const char *f, ...) __attribute__((format(printf, 2, 3)));
void outcome(uint64_t h);                       // note a distinct observed outcome
bool seen_insert(uint64_t h, int rem);          // true: must be expanded
void scenario_begin(const char *name);
void note_sample(const string &s);
void start_watchdog(int sec);                   // progress watchdog for target code
void pet();
// parent side
void begin(const char *prop, int argc, char **argv);
int finish(const char *level, const string &rule, const vector<string> &assumptions);
void add_cover(const string &key, uint64_t v);
bool run_forked(const char *name, std::function<void()> coordinator); // runs in child process; false = violation recorded
extern std::map<string, string> cover_extra;
void run_workers(int ntasks, std::function<void(int task)> f);
bool out_of_time();

template <class M> struct Op { string name; std::function<bool(const M &)> en; std::function<void(M &)> run; };

template <class M> struct Explorer {
    string name; vector<Op<M>> ops; std::function<void(M &)> sweep; int depth = 3;
    std::function<void(M &)> leaf;              // extra check at maximal histories
    bool dedupe = true; bool sweep_each = true;
    void add(const string &n, std::function<void(M &)> r, std::function<bool(const M &)> e = nullptr) { ops.push_back({n, e, r}); }
    void step(M &m, int i) {
        cur_ops[cur_n++] = i; pet();
        S->transitions++;
        ops[i].run(m);
        if (sweep && sweep_each) sweep(m);
    }
    void dfs(M &m, int rem) {
        if ((int)S->deepest.load() < cur_n) S->deepest = cur_n;
        if (rem == 0) { if (sweep && !sweep_each) sweep(m); if (leaf) leaf(m); S->histories++; if (S->nsamples.load() < 4) sample(); return; }
        if (S->violated.load()) return;
        if (out_of_time()) { S->capped = 1; return; }
        rt::Snap s; rt::save(s); M keep = m; int n0 = cur_n; bool any = false;
        for (int i = 0; i < (int)ops.size(); i++) {
            if (ops[i].en && !ops[i].en(m)) continue;
            any = true;
            step(m, i);
            uint64_t h = rt::hash() * 31 + m.hash();
            if (!dedupe || seen_insert(h, rem - 1)) dfs(m, rem - 1);
            rt::restore(s); m = keep; cur_n = n0;
        }
        if (!any) S->histories++;
    }
    void sample() { string t; for (int i = 0; i < cur_n; i++) { if (i) t += " ; "; t += ops[cur_ops[i]].name; } note_sample(name + ": " + t); }
    // explore from the current (set-up) state
    void run(M &m0) {
        snprintf(cur_scn, sizeof cur_scn, "%s", name.c_str());
        cur_opname = [this](int i) { return i >= 0 && i < (int)ops.size() ? ops[i].name : string("?"); };
        cur_n = 0;
        if (g_replaying) {
            if (g_replay_scn != name) return;
            M m = m0; for (int i : g_replay) { if (i < 0 || i >= (int)ops.size()) { fprintf(stderr, "bad replay\n"); _exit(91); } fprintf(stderr, "replay: %s\n", ops[i].name.c_str()); step(m, i); if (g_verbose) fprintf(stderr, "  state %016lx model %016lx\n", (unsigned long)rt::hash(), (unsigned long)m.hash()); }
            if (sweep && !sweep_each) sweep(m);
            if (leaf) leaf(m);
            return;
        }
        if (sweep) { M m = m0; rt::Snap s; rt::save(s); sweep(m); rt::restore(s); }
        int n = (int)ops.size(); bool two = depth >= 2 && n < 200;
        rt::Snap root; rt::save(root);
        run_workers(two ? n * n : n, [&](int t) {
            rt::restore(root); M m = m0; cur_n = 0;
            int a = two ? t / n : t, b = two ? t % n : -1;
            if (ops[a].en && !ops[a].en(m)) return;
            step(m, a);
            uint64_t h = rt::hash() * 31 + m.hash();
            if (!two) { if (!dedupe || seen_insert(h, depth - 1)) dfs(m, depth - 1); return; }
            if (b == 0 && dedupe) seen_insert(h, depth - 1);
            if (b > 0) S->transitions--;          // prefix replayed, not a new transition
            if (ops[b].en && !ops[b].en(m)) return;
            step(m, b);
            h = rt::hash() * 31 + m.hash();
            if (!dedupe || seen_insert(h, depth - 2)) dfs(m, depth - 2);
        });
    }
};
}
