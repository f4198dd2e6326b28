#include "explore.h"
extern "C" void __asan_set_death_callback(void (*)(void));
extern "C" __attribute__((visibility("default"), used)) const char *__asan_default_options() {
    return "detect_leaks=0:halt_on_error=1:exitcode=77:detect_stack_use_after_return=0:handle_abort=0:allocator_may_return_null=1:"
           "use_sigaltstack=1:verify_asan_link_order=0:detect_odr_violation=0:handle_segv=1:handle_sigfpe=1:color=never:print_legend=0:symbolize=1:max_malloc_fill_size=0:intercept_tls_get_addr=0";
}
namespace ex {
Shared *S; string g_prop, g_tier = "quick", g_outdir; int g_workers = 8; double g_budget = 600;
int g_replay_n; vector<int> g_replay; string g_replay_scn; bool g_replaying, g_verbose;
vector<string> cur_names; int cur_ops[MAXDEPTH]; int cur_n; char cur_scn[128];
std::function<string(int)> cur_opname; std::map<string, string> cover_extra;
static std::map<string, uint64_t> covern; static double t0; static int nscn; static pid_t main_pid;
static vector<pid_t> kids; static int asan_fd = -1; static std::set<string> scn_done;
static uint64_t prev_outcomes;

double now() { struct timeval tv; gettimeofday(&tv, nullptr); return tv.tv_sec + tv.tv_usec / 1e6; }
bool out_of_time() { return now() - t0 > g_budget; }
string sfmt(const char *f, ...) { char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
static void record(const char *kind, const char *detail) {
    int z = 0;
    if (!S->violated.compare_exchange_strong(z, 1)) return;
    snprintf(S->scenario, sizeof S->scenario, "%s", cur_scn); snprintf(S->kind, sizeof S->kind, "%s", kind);
    snprintf(S->detail, sizeof S->detail, "%s", detail);
    S->nops = cur_n; memcpy(S->ops, cur_ops, sizeof(int) * (size_t)(cur_n < MAXDEPTH ? cur_n : MAXDEPTH));
    string t; for (int i = 0; i < cur_n && cur_opname; i++) t += sfmt("  %2d. %s\n", i + 1, cur_opname(cur_ops[i]).c_str());
    snprintf(S->trace, sizeof S->trace, "%s", t.c_str());
    S->violated = 2;
}
void violation(const char *kind, const char *f, ...) {
    static char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    record(kind, b); _exit(3);
}
static void on_fail(const char *k, const char *d) { record(k, d); _exit(3); }
static void on_asan() { record("memory-error", "AddressSanitizer report (see log beside the replay file)"); }
static void on_alarm(int) {
    static const char m[] = "no progress: target code does not terminate"; record("hang", m); _exit(3);
}
static int wd_sec = 20;
void start_watchdog(int s) { wd_sec = s; signal(SIGALRM, on_alarm); alarm((unsigned)s); }
static unsigned pets; void pet() { if ((++pets & 15) == 0) alarm((unsigned)wd_sec); }
void outcome(uint64_t h) {
    h |= 1; uint64_t i = (h * 0x9E3779B97F4A7C15ull) >> 52;
    for (int k = 0; k < 64; k++) { uint64_t v = S->outcome[(i + k) & 4095].load(std::memory_order_relaxed); if (v == h) return; if (!v) { uint64_t z = 0; if (S->outcome[(i + k) & 4095].compare_exchange_strong(z, h)) { S->outcomes_n++; return; } if (z == h) return; } }
}
bool seen_insert(uint64_t h, int rem) {
    uint64_t key = (h & ~0xffull); if (!key) key = 0x100; uint64_t ent = key | (uint64_t)(rem + 1);
    uint64_t i = (h * 0xD6E8FEB86659FD93ull) >> (64 - TBL_BITS);
    for (int k = 0; k < 4096; k++) {
        auto &e = S->table[(i + k) & ((1u << TBL_BITS) - 1)]; uint64_t v = e.load();
        for (;;) {
            if (!v) { if (e.compare_exchange_strong(v, ent)) { S->states++; return true; } continue; }
            if ((v & ~0xffull) != key) break;
            if ((v & 0xff) >= (ent & 0xff)) return false;
            if (e.compare_exchange_strong(v, ent)) return true;
        }
    }
    return true;                                  // table crowded: simply expand
}
void note_sample(const string &s) { int n = S->nsamples++; if (n < 4) snprintf(S->samples[n], 1024, "%s", s.c_str()); }
void begin(const char *prop, int argc, char **argv) {
    g_prop = prop; t0 = now(); main_pid = getpid();
    const char *t = getenv("VERIF_TIER"); if (t && !strcmp(t, "thorough")) g_tier = "thorough";
    const char *o = getenv("MC_OUT"); g_outdir = o ? o : "/tmp";
    const char *w = getenv("MC_WORKERS"); if (w) g_workers = atoi(w);
    const char *b = getenv("MC_BUDGET"); g_budget = b ? atof(b) : (g_tier == "thorough" ? 3000 : 400);
    S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (S == MAP_FAILED) { perror("mmap"); exit(92); }
    for (int i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "--replay") && i + 1 < argc) {
            FILE *f = fopen(argv[++i], "r"); if (!f) { perror("replay"); exit(92); }
            static char line[1 << 17]; g_replaying = true;
            while (fgets(line, sizeof line, f)) {
                if (!strncmp(line, "scenario: ", 10)) { g_replay_scn = line + 10; while (!g_replay_scn.empty() && g_replay_scn.back() == '\n') g_replay_scn.pop_back(); }
                if (!strncmp(line, "ops:", 4)) { char *p = line + 4, *e; for (;;) { long v = strtol(p, &e, 10); if (e == p) break; g_replay.push_back((int)v); p = e; } }
            }
            fclose(f);
        } else if (!strcmp(argv[i], "-v")) g_verbose = true;
        else if (!strcmp(argv[i], "--thorough")) g_tier = "thorough";
    }
    rt::set_fail(on_fail); __asan_set_death_callback(on_asan);
}
void add_cover(const string &k, uint64_t v) { covern[k] += v; }
void run_workers(int ntasks, std::function<void(int)> f) {
    S->nexttask = 0; kids.clear(); alarm(0);
    int nw = g_workers; if (nw > ntasks) nw = ntasks;
    for (int w = 0; w < nw; w++) {
        pid_t p = fork();
        if (p == 0) {
            start_watchdog(20);
            for (;;) { uint64_t t = S->nexttask++; if (t >= (uint64_t)ntasks || S->violated.load()) break; if (out_of_time()) { S->capped = 1; break; } pet(); f((int)t); }
            _exit(0);
        }
        if (p < 0) { perror("fork"); _exit(93); }
        kids.push_back(p);
    }
    bool bad = false; int st;
    for (size_t k = 0; k < kids.size(); k++) {
        pid_t p = wait(&st); if (p < 0) break;
        if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0)) {
            bad = true;
            if (S->violated.load() == 0) {
                if (WIFSIGNALED(st) && WTERMSIG(st) != SIGKILL) { snprintf(cur_scn, sizeof cur_scn, "%s", cur_scn); record("crash", sfmt("worker died with signal %d", WTERMSIG(st)).c_str()); }
                else { fprintf(stderr, "mc: worker ended with status 0x%x\n", st); for (pid_t q : kids) kill(q, SIGKILL); _exit(95); }
            }
            for (pid_t q : kids) if (q != p) kill(q, SIGKILL);
        }
    }
    if (bad) _exit(3);
    alarm(60);
}
bool run_forked(const char *name, std::function<void()> c) {
    if (g_replaying && g_replay_scn.compare(0, strlen(name), name)) return true;
    if (S->violated.load()) return false;
    snprintf(cur_scn, sizeof cur_scn, "%s", name); cur_n = 0; cur_opname = nullptr; nscn++;
    memset((void *)S->table, 0, sizeof S->table);
    uint64_t tr0 = S->transitions, st0 = S->states, hi0 = S->histories; double a = now(); S->deepest = 0;
    string log = g_outdir + "/" + g_prop + ".log";
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) { if (!g_verbose && !g_replaying) { FILE *f = freopen(log.c_str(), "w", stderr); (void)f; f = freopen("/dev/null", "w", stdout); (void)f; } start_watchdog(60); c(); _exit(0); }
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && S->violated.load() == 0) {
        if (WIFSIGNALED(st)) record("crash", sfmt("scenario process died with signal %d", WTERMSIG(st)).c_str());
        else { fprintf(stderr, "mc: scenario %s failed to run (status 0x%x); log %s\n", name, st, log.c_str()); char cmd[512]; snprintf(cmd, sizeof cmd, "tail -20 %s >&2", log.c_str()); int r = system(cmd); (void)r; exit(96); }
    }
    printf("  %-46s %9lu transitions %8lu states %8lu histories depth<=%lu %6.1fs%s\n", name, (unsigned long)(S->transitions - tr0), (unsigned long)(S->states - st0), (unsigned long)(S->histories - hi0), (unsigned long)S->deepest.load(), now() - a, S->capped.load() ? " (time cap hit)" : "");
    fflush(stdout);
    return S->violated.load() == 0;
}
static string js(const string &s) { string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += (char)c; } return o + "\""; }
int finish(const char *level, const string &rule, const vector<string> &ass) {
    bool viol = S->violated.load() != 0;
    if (g_replaying) {
        if (viol) printf("REPLAY: violation reproduced: [%s] %s: %s\n%s", S->scenario, S->kind, S->detail, S->trace); else printf("REPLAY: no violation\n");
        return viol ? 1 : 0;
    }
    const char *ev = getenv("MC_EVIDENCE"); string evp = ev ? ev : g_outdir + "/" + g_prop + ".json";
    FILE *f = fopen(evp.c_str(), "w");
    if (f) {
        const char *seed = getenv("VERIF_SEED");
        bool mcl = !strcmp(level, "model_checking");
        fprintf(f, "{\"property\":%s,\"tier\":%s,\"seed\":%d,\"level\":%s,\"coverage\":{", js(g_prop).c_str(), js(g_tier).c_str(), seed ? atoi(seed) : 1, js(level).c_str());
        if (mcl) fprintf(f, "\"states\":%lu,\"transitions\":%lu,\"traces_validated_against_impl\":%lu,", (unsigned long)S->states.load(), (unsigned long)S->transitions.load(), (unsigned long)S->histories.load());
        else fprintf(f, "\"evaluations\":%lu,\"distinct_nontrivial\":%lu,", (unsigned long)S->transitions.load(), (unsigned long)(S->states.load() ? S->states.load() : S->outcomes_n.load()));
        fprintf(f, "\"rule\":%s,\"scenarios\":%d,\"comparisons\":%lu,\"distinct_outcomes\":%lu,\"exhaustive\":%s", js(rule).c_str(), nscn, (unsigned long)S->checks.load(), (unsigned long)S->outcomes_n.load(), S->capped.load() || viol ? "false" : "true");
        for (auto &k : covern) fprintf(f, ",%s:%lu", js(k.first).c_str(), (unsigned long)k.second);
        for (auto &k : cover_extra) fprintf(f, ",%s:%s", js(k.first).c_str(), js(k.second).c_str());
        fprintf(f, ",\"samples\":["); int ns = S->nsamples.load(); if (ns > 4) ns = 4;
        for (int i = 0; i < ns; i++) fprintf(f, "%s%s", i ? "," : "", js(S->samples[i]).c_str());
        fprintf(f, "]},\"assumptions\":["); for (size_t i = 0; i < ass.size(); i++) fprintf(f, "%s%s", i ? "," : "", js(ass[i]).c_str());
        fprintf(f, "],\"wall_s\":%.2f,\"violations\":%d}\n", now() - t0, viol ? 1 : 0);
        fclose(f);
    }
    printf("%s: %lu transitions, %lu states, %lu histories, %lu comparisons, %lu distinct outcomes, %.1f s\n", g_prop.c_str(), (unsigned long)S->transitions.load(), (unsigned long)S->states.load(), (unsigned long)S->histories.load(), (unsigned long)S->checks.load(), (unsigned long)S->outcomes_n.load(), now() - t0);
    if (viol) {
        string rp = g_outdir + "/" + g_prop + ".replay";
        FILE *r = fopen(rp.c_str(), "w");
        if (r) { fprintf(r, "property: %s\nscenario: %s\nops:", g_prop.c_str(), S->scenario); for (int i = 0; i < S->nops; i++) fprintf(r, " %d", S->ops[i]); fprintf(r, "\nkind: %s\ndetail: %s\ntrace:\n%s", S->kind, S->detail, S->trace); fclose(r); }
        printf("violated: [%s] %s: %s\n%s", S->scenario, S->kind, S->detail, S->trace);
        printf("VIOLATION property=%s replay=%s\n", g_prop.c_str(), rp.c_str());
        return 1;
    }
    return 0;
}
}
