// C23: the real master program; the harness plays the kernel it supervises processes with (fork, exec, wait, kill, signals, clock, /proc).
#include "srv.h"
#include <getopt.h>
#include <pwd.h>
#include <grp.h>
#include <sys/wait.h>
using namespace ex;
std::map<string, std::pair<void (*)(), string>> &regs() { static std::map<string, std::pair<void (*)(), string>> m; return m; }
namespace srv { string exe_dir(); }
namespace {
bool thorough() { return g_tier == "thorough"; }
enum { FORK = 1, EXEC, EXIT };
struct Cfg { string args; bool restart = false; int delay = 0; bool cpu = false, mem = false; string user, group; int uid = -9, gid = -9; string comm = "proc"; };   // uid -9: not configured
std::vector<Cfg> cfg; const int64_t BOOT = 5000000;
struct Pr { int pid = 0, starts = 0, tries = 0; int64_t t_start = 0, t_exit = 0, t_exit_max = 0; int dmin = 0, dmax = 0; bool dead = false, hog_cpu = false, hog_mem = false; int64_t t_hog = 0; bool asked = false, killed = false, stopped = false; };
struct MM {
    std::vector<Pr> p; std::vector<std::pair<int, int>> zombies; std::vector<int64_t> zt; int nextpid = 1000; bool chld = false; int term = 0; unsigned long blocked = 0;
    void (*h[32])(int) = {}; bool exited = false, quitting = false, started = false; int64_t t_last = 0, t_term = 0; int armed = 0, armed_k = -1; bool fork_fail = false, exec_fail = false, die_at_once = false; int next = 0; int files = 0; unsigned long racy = 0; int64_t t_up = 0; int freed = 0; bool reuse = false;
    uint64_t hash() const { uint64_t x = 5; auto mx = [&](int64_t v) { x = (x ^ (uint64_t)v) * 0x9E3779B97F4A7C15ull; x ^= x >> 29; }; for (auto &q : p) { for (int64_t v : {(int64_t)q.pid, (int64_t)q.starts, (int64_t)q.tries, q.t_start, q.t_exit, q.t_exit_max, (int64_t)q.dmin, (int64_t)q.dmax, (int64_t)q.dead * 64 + q.hog_cpu * 32 + q.hog_mem * 16 + q.asked * 8 + q.killed * 4 + q.stopped, q.t_hog}) mx(v); } for (auto &z : zombies) { mx(z.first); mx(z.second); } mx(nextpid); mx(chld); mx(term); mx((int64_t)blocked); mx(exited * 4 + quitting * 2 + started); mx(fork_fail * 4 + exec_fail * 2 + die_at_once); mx(armed); mx(armed_k); mx(freed * 2 + reuse); return x; }
};
MM *M; int co = -1; bool child = false, in_handler = false; unsigned points;
struct Child { int uid = 0, gid = 0; bool exec = false; string path; std::vector<string> argv; int status = 0; } ch;
int64_t now_() { return *rt::now_ms; }
string pname(int k) { return sfmt("p%d", k); }
int of_pid(int pid) { for (size_t k = 0; k < M->p.size(); k++) if (M->p[k].pid == pid && pid > 0) return (int)k; return -1; }
int nextd(int d) { d = d == 0 ? 100 : d * 2; return d > 60000 ? 60000 : d; }
void die(int k, int status) {                          // the process is gone; the kernel keeps it as a zombie
    Pr &q = M->p[(size_t)k]; M->zombies.push_back({q.pid, status}); M->zt.push_back(now_()); q.pid = 0; q.dead = true; q.t_exit = q.t_exit_max = now_(); int64_t ran = now_() - q.t_start; if (ran > 60000) { q.dmin = 0; if (ran > 63000) q.dmax = 0; } else if (ran > 57000) q.dmin = 0;
    M->chld = true;
}
void deliver() {
    if (in_handler) return;
    in_handler = true;
    for (;;) { int s = 0; if (M->chld && !(M->blocked >> SIGCHLD & 1)) { s = SIGCHLD; M->chld = false; } else if (M->term && !(M->blocked >> M->term & 1)) { s = M->term; M->term = 0; } if (!s) break;
        void (*f)(int) = M->h[s]; if (f == SIG_IGN) continue; if (f == SIG_DFL) { if (s != SIGCHLD) violation("signal", "signal %d is not handled by the master: it dies without stopping its processes", s); continue; } bool o = rt::in_target; rt::in_target = true; f(s); rt::in_target = o; }
    in_handler = false;
}
void point() { if (child || !M || in_handler || rt::current_proc() != 1) return; points++; if (M->armed > 0 && --M->armed == 0) { int k = M->armed_k; if (k >= 0 && M->p[(size_t)k].pid > 0) die(k, 0); else if (k < -1) { M->term = -k; M->quitting = true; M->t_term = now_(); } M->armed_k = -1; } if (M->chld || M->term) deliver(); }
void started(int k, int pid) {
    Pr &q = M->p[(size_t)k]; int64_t t = now_(); S->checks++;
    if (M->exited) violation("order", "a process is started after the end of the master");
    if (q.pid) violation("copies", "process %s is started again although its previous copy [%d] is still running", pname(k).c_str(), q.pid);
    if (M->next < (int)cfg.size()) {
        if (k != M->next) violation("order", "process %s is started when it is the turn of %s", pname(k).c_str(), pname(M->next).c_str());
        if (k > 0 && t < M->t_last + cfg[(size_t)k - 1].delay) violation("early", "process %s is started %ld ms after the previous one, whose delay is %d ms", pname(k).c_str(), (long)(t - M->t_last), cfg[(size_t)k - 1].delay);
        if (k > 0 && t > M->t_last + cfg[(size_t)k - 1].delay + 100) violation("late", "process %s is started %ld ms after the previous one, whose delay is %d ms", pname(k).c_str(), (long)(t - M->t_last), cfg[(size_t)k - 1].delay);
        M->next++; M->t_last = t; if (M->next == (int)cfg.size()) M->t_up = t + cfg[(size_t)k].delay;
    } else {
        if (!cfg[(size_t)k].restart) violation("restart", "process %s is started again although restart is off", pname(k).c_str());
        if (!q.dead) violation("restart", "process %s is started again although it has not ended", pname(k).c_str());
        if (t - q.t_exit < q.dmin) violation("early", "process %s is restarted %ld ms after its end, before its restart delay of %d ms", pname(k).c_str(), (long)(t - q.t_exit), q.dmin);
        q.dmin = nextd(q.dmin); q.dmax = nextd(q.dmax);
    }
    q.pid = pid; q.starts++; q.dead = false; q.t_start = t; q.hog_cpu = q.hog_mem = q.asked = q.killed = q.stopped = false;
    // how it was started
    const Cfg &c = cfg[(size_t)k]; if (!ch.exec) return; std::vector<string> w = {ch.path}; size_t i = 0; while (i < c.args.size()) { size_t e = c.args.find(' ', i); if (e == string::npos) e = c.args.size(); if (e > i) w.push_back(c.args.substr(i, e - i)); i = e + 1; }
    if (ch.argv != w) { string g; for (auto &s : ch.argv) g += " \"" + s + "\""; violation("args", "process %s is run with the arguments%s; configured: \"%s\"", pname(k).c_str(), g.c_str(), c.args.c_str()); }
    auto id = [](int v, const string &n, int dflt) { return v != -9 && v >= 0 ? v : n == "alice" ? 1000 : n == "root" ? 0 : n.empty() ? dflt : -1; };
    int u = id(c.uid, c.user, 500), g = id(c.gid, c.group, 500); if (u >= 0 && ch.uid != u) violation("user", "process %s runs as user %d, configured %d", pname(k).c_str(), ch.uid, u); if (g >= 0 && ch.gid != g) violation("user", "process %s runs with group %d, configured %d", pname(k).c_str(), ch.gid, g);
}
void do_fork() {
    if (M->fork_fail) { M->fork_fail = false; if (M->next < (int)cfg.size()) { Pr &q = M->p[(size_t)M->next]; q.dead = true; q.t_exit = q.t_exit_max = now_(); M->t_last = now_(); M->next++; if (M->next == (int)cfg.size()) M->t_up = now_() + cfg.back().delay; } else for (auto &q : M->p) if (q.dead) { q.t_exit_max = now_(); q.dmax = nextd(q.dmax); } rt::ext_answer(co, -1); return; }
    rt::Snap s; rt::save(s); ch = Child(); child = true; rt::ext_answer(co, 0);
    if (!rt::run_idle()) violation("hang", "a started child runs forever before exec");
    int w = rt::ext_pending(co); if (w != EXEC && w != EXIT) violation("child", "a started child neither executes its program nor ends: %s", rt::describe_threads().c_str());
    bool ran = ch.exec; rt::restore(s); child = false;
    int k = -1; for (size_t i = 0; i < cfg.size(); i++) if (ch.path == "/bin/" + pname((int)i)) k = (int)i;
    if (k < 0) { if (M->next < (int)cfg.size()) k = M->next; else violation("args", "the master starts \"%s\"", ch.path.c_str()); }
    int pid = 0; if (M->reuse && M->freed) { pid = M->freed; M->freed = 0; M->reuse = false; } else pid = M->nextpid++; bool at_once = M->die_at_once; M->die_at_once = false; started(k, pid);
    if (!ran) die(k, ch.status << 8); else if (at_once) die(k, 0);
    rt::ext_answer(co, pid);
}
void settle() { for (int n = 0;; n++) { if (n > 3000) violation("hang", "the master does not come to rest"); if (!rt::run_idle()) violation("hang", "the master does not come to rest (endless loop)"); int w = rt::ext_pending(co); if (w == FORK) do_fork(); else if (w == EXIT) { M->exited = true; return; } else if (w < 0) return; else violation("child", "exec in the master itself"); } }
bool advance() { if (M->exited) return false; if (!rt::fire_earliest_deadline()) violation("hang", "the master waits for nothing"); settle(); pet(); return true; }
void wake() { if (M->chld || M->term) rt::interrupt(co); settle(); }
void sweep(MM &m) {
    M = &m; S->checks++; outcome(m.hash()); if (m.exited) { if (!m.quitting) violation("gone", "the master ended without being told to"); for (auto &q : m.p) if (q.pid && !q.stopped) violation("left", "the master ended and left process %d running", q.pid); return; }
    if (m.files) violation("leak", "%d files of /proc are left open by the master while it waits", m.files);
    if (m.next < (int)cfg.size()) return;
    int64_t t = now_(); if (t <= m.t_up) return;
    for (size_t k = 0; k < m.p.size(); k++) { Pr &q = m.p[k]; int64_t from = std::max(q.t_exit_max, m.t_up); if (q.dead && cfg[k].restart && t - from > q.dmax + 2200) violation("lost", "process %s ended %ld ms ago and is not restarted (its restart delay is %d ms)", pname((int)k).c_str(), (long)(t - q.t_exit_max), q.dmax);
        bool over = (q.hog_cpu && cfg[k].cpu) || (q.hog_mem && cfg[k].mem); if (q.pid && over) { int64_t h = std::max(q.t_hog, m.t_up); if (!q.asked && t - h > 70000) violation("limit", "process %s exceeds its %s limit for %ld ms and is not stopped", pname((int)k).c_str(), q.hog_cpu ? "cpu" : "memory", (long)(t - h)); if (!q.killed && t - h > 140000) violation("limit", "process %s exceeds its limit for %ld ms, did not follow the request to quit and is not killed", pname((int)k).c_str(), (long)(t - h)); } }
    for (size_t i = 0; i < m.zombies.size(); i++) if (t - std::max(m.zt[i], m.t_up) > 2200) violation("lost", "the end of process %d is not collected after %ld ms", m.zombies[i].first, (long)(t - m.zt[i]));
}
void *lib; int (*main_fn)(int, char **); struct MA { int argc; char *argv[4]; }; void *mthread(void *p) { MA *a = (MA *)p; main_fn(a->argc, a->argv); return nullptr; }
int kill_(int pid, int sig) {
    if (child) violation("child", "a child calls kill(%d, %d)", pid, sig); if (sig == 0) { int k = of_pid(pid); errno = ESRCH; return k < 0 ? -1 : 0; } S->checks++;
    if (pid <= 0) { if (!M->quitting) violation("kill", "kill(%d, %d): the master signals its own process group although it was not told to stop", pid, sig); for (auto &q : M->p) if (q.pid) q.stopped = true; return 0; }
    int k = of_pid(pid); if (k < 0) { for (size_t i = 0; i < M->zombies.size(); i++) if (M->zombies[i].first == pid) return 0; if (M->racy == (unsigned long)pid) { errno = ESRCH; return -1; } violation("kill", "kill(%d, %d): this is not a running process of the master", pid, sig); }
    Pr &q = M->p[(size_t)k]; if (M->quitting) { q.stopped = true; return 0; }
    if (!((q.hog_cpu && cfg[(size_t)k].cpu) || (q.hog_mem && cfg[(size_t)k].mem))) violation("kill", "process %s is signalled (%d) although it keeps its limits", pname(k).c_str(), sig);
    if (sig == SIGKILL && !q.asked) violation("kill", "process %s is killed without having been asked to end", pname(k).c_str()); q.asked = true; if (sig == SIGKILL) { q.killed = true; } return 0;
}
int sigact(int s, const struct sigaction *a, struct sigaction *o) { if (s < 1 || s > 31 || child) return 0; if (o) { memset(o, 0, sizeof *o); o->sa_handler = M->h[s]; } if (a) M->h[s] = a->sa_handler; return 0; }
void exit_(int c) { if (child) ch.status = c & 255; rt::ext_call(EXIT); }
void start(MM &m) {
    static bool loaded; if (!loaded) { rt::init(); lib = rt::load((srv::exe_dir() + "/master.so").c_str()); rt::acc_init(lib); main_fn = (int (*)(int, char **))rt::sym(lib, "master_main"); loaded = true; }
    m.p.resize(cfg.size()); M = &m; string f = srv::exe_dir() + sfmt("/mst_%d.conf", (int)getpid()); FILE *o = fopen(f.c_str(), "w");
    for (size_t k = 0; k < cfg.size(); k++) { const Cfg &c = cfg[k]; fprintf(o, "add_process({name=\"%s\", path=\"/bin/%s\"", pname((int)k).c_str(), pname((int)k).c_str()); if (c.args != "-") fprintf(o, ", args=\"%s\"", c.args.c_str()); if (c.restart) fputs(", restart=true", o); else if (k % 2) fputs(", restart=false", o); if (c.delay) fprintf(o, ", delay=%d", c.delay); if (c.cpu) fputs(", cpu=0.5", o); if (c.mem) fputs(", mem=2000", o); if (!c.user.empty()) fprintf(o, ", user=\"%s\"", c.user.c_str()); if (!c.group.empty()) fprintf(o, ", group=\"%s\"", c.group.c_str()); if (c.uid != -9) fprintf(o, ", uid=%d", c.uid); if (c.gid != -9) fprintf(o, ", gid=%d", c.gid); fputs(k % 2 ? ", env=\"A=1\"})\n" : "})\n", o); }
    fclose(o); for (auto &c : cfg) if (c.args == "-") c.args = "";
    *rt::now_ms = BOOT; rt::sig_point = point; rt::exit_hook = exit_; rt::kill_hook = kill_; rt::sigaction_hook = sigact;
    static MA ma; memset(&ma, 0, sizeof ma); ma.argv[ma.argc++] = strdup("opendax"); ma.argv[ma.argc++] = strdup("-C"); ma.argv[ma.argc++] = strdup(f.c_str()); optind = 0; opterr = 0;
    m.t_last = now_(); co = rt::spawn_c(1, mthread, &ma); settle(); unlink(f.c_str()); if (m.exited) violation("gone", "the master ends while starting");
}
// ---- operations
using X = Explorer<MM>;
bool on(const MM &m) { return !m.exited && !m.quitting; }
void finish_quit(MM &m) { for (int n = 0; n < 60 && !m.exited; n++) { if (m.next == (int)cfg.size() && now_() > std::max(m.t_up, m.t_term) + 3000) violation("late", "the master was told to stop %ld ms ago and still runs", (long)(now_() - m.t_term)); advance(); } if (!m.exited) violation("late", "the master does not stop"); }
void add_exit(X &x, int k) { x.add("exit " + pname(k), [=](MM &m) { M = &m; die(k, k == 1 ? 256 : 0); wake(); }, [=](const MM &m) { return on(m) && m.p[(size_t)k].pid; }); }
void add_adv(X &x) { x.add("time passes", [](MM &m) { M = &m; advance(); }, on); }
void adv_for(int64_t ms) { int64_t e = now_() + ms; while (now_() < e && !M->exited) { advance(); MM *k = M; sweep(*k); } }
void add_for(X &x, int64_t ms) { x.add(sfmt("%ld ms pass", (long)ms), [=](MM &m) { M = &m; adv_for(ms); }, on); }
void add_term(X &x, int s) { x.add(sfmt("signal %d", s), [=](MM &m) { M = &m; m.term = s; m.quitting = true; m.t_term = now_(); wake(); finish_quit(m); }, on); }
void add_fault(X &x, int w) { x.add(w == 0 ? "next fork fails" : w == 1 ? "next exec fails" : "next child ends at once", [=](MM &m) { if (w == 0) m.fork_fail = true; else if (w == 1) m.exec_fail = true; else m.die_at_once = true; }, [=](const MM &m) { return on(m) && !m.fork_fail && !m.exec_fail && !m.die_at_once; }); }
void add_at(X &x, int k, int n) { x.add(sfmt("%s at point %d", k >= 0 ? ("exit " + pname(k)).c_str() : "SIGTERM", n), [=](MM &m) { M = &m; m.armed = n; m.armed_k = k; if (k >= 0) m.racy = (unsigned long)m.p[(size_t)k].pid; advance(); if (m.armed) { m.armed = 0; m.armed_k = -1; } m.racy = 0; if (m.quitting) finish_quit(m); }, [=](const MM &m) { return on(m) && (k < 0 || m.p[(size_t)k].pid); }); }
void add_reuse(X &x) { x.add("the next process gets the number of one that ended", [=](MM &m) { m.reuse = true; }, [](const MM &m) { return on(m) && !m.reuse && m.freed; }); }
void add_part(X &x, int k) { x.add(sfmt("200 ms of a delay pass and %s ends", pname(k).c_str()), [=](MM &m) { M = &m; *rt::now_ms += 200; die(k, 0); wake(); }, [=](const MM &m) { return on(m) && m.p[(size_t)k].pid && rt::co_deadline(co) > now_() + 200; }); }
void add_hog(X &x, int k, bool cpu) { x.add(sfmt("%s uses too much %s", pname(k).c_str(), cpu ? "cpu" : "memory"), [=](MM &m) { Pr &q = m.p[(size_t)k]; const Cfg &c = cfg[(size_t)k]; if ((cpu ? c.cpu : c.mem) && !(q.hog_cpu && c.cpu) && !(q.hog_mem && c.mem)) q.t_hog = now_(); (cpu ? q.hog_cpu : q.hog_mem) = true; }, [=](const MM &m) { return on(m) && m.p[(size_t)k].pid && !(cpu ? m.p[(size_t)k].hog_cpu : m.p[(size_t)k].hog_mem); }); }
Cfg C_(bool r, int d = 0, const char *a = "-") { Cfg c; c.restart = r; c.delay = d; c.args = a; return c; }
// ---- scenarios
void startup() { // how every process is started
    static const char *args[] = {"-", "", "-d", "-C /etc/x.conf", "  -a   -b  c ", "-a 1 -b 2 -c 3 -d 4 -e 5 -f 6"}; static const int dl[] = {0, 700, 2500};
    for (int cv = 0; cv < (thorough() ? 60 : 24); cv++) run_forked(sfmt("startup %d", cv).c_str(), [=]() { cfg.clear(); int n = 1 + cv % 4; for (int k = 0; k < n; k++) { int z = cv * 7 + k * 3; Cfg c = C_(z & 1, dl[(z / 2) % 3], args[(z + k) % 6]); switch ((z + k) % 7) { case 1: c.user = "alice"; break; case 2: c.user = "alice"; c.group = "alice"; break; case 3: c.uid = 1000; c.gid = 1000; break; case 4: c.group = "alice"; break; case 5: c.uid = 0; c.gid = 0; break; case 6: c.uid = 1001; c.user = "alice"; c.group = "root"; break; } cfg.push_back(c); }
        MM m; if (cv % 8 == 5) m.fork_fail = true; if (cv % 8 == 6) m.exec_fail = true; if (cv % 8 == 7) m.die_at_once = true; start(m); X x; x.name = sfmt("startup %d", cv); add_for(x, 6000); x.depth = thorough() ? 6 : 5; x.sweep = sweep; add_adv(x); for (int k = 0; k < n && k < 2; k++) add_exit(x, k); add_term(x, SIGTERM); add_fault(x, 0); add_fault(x, 1); x.run(m); }); }
void histories() { for (int v = 0; v < 2; v++) run_forked(v ? "histories, slow start" : "histories", [=]() { cfg = {C_(true, v ? 300 : 0, "-x"), C_(false), C_(true, v ? 1500 : 0)}; if (!v) cfg.resize(3); MM m; start(m); X x; x.name = v ? "histories, slow start" : "histories"; x.depth = thorough() ? 9 : 7; x.sweep = sweep; for (int k = 0; k < 3; k++) add_exit(x, k); add_reuse(x); if (v) { add_part(x, 0); add_part(x, 1); } add_adv(x); add_for(x, 2500); if (!v) add_for(x, 64000); add_term(x, SIGTERM); add_fault(x, 0); add_fault(x, 1); add_fault(x, 2);
        x.add("exit of all", [](MM &m) { M = &m; for (size_t k = 0; k < m.p.size(); k++) if (m.p[k].pid) die((int)k, 9); wake(); }, on); x.run(m); }); }
void pointwise() { for (int v = 0; v < 3; v++) run_forked(sfmt("signals at every point %d", v).c_str(), [=]() { cfg = {C_(true), C_(v != 1)}; if (v == 2) { cfg[0].cpu = cfg[1].mem = true; } MM m; start(m); advance(); X x; x.name = sfmt("signals at every point %d", v); x.depth = thorough() ? 5 : 4; x.sweep = sweep; MM t = m; M = &t; points = 0; { rt::Snap s; rt::save(s); die(0, 0); die(1, 0); wake(); advance(); advance(); rt::restore(s); } int n = std::min(points + 8u, 400u); M = &m; if (n < 40) n = 40;
        for (int k : {0, 1, -SIGTERM}) for (int i = 1; i < n; i += thorough() || k != 1 ? 1 : 2) if (k >= 0 || i % 3 == 0) add_at(x, k, i); add_exit(x, 0); add_exit(x, 1); add_adv(x); add_for(x, 500); if (v == 2) { add_hog(x, 0, true); add_for(x, 66000); } x.run(m); }); }
void many() { run_forked("many", []() { cfg.clear(); for (int i = 0; i < 24; i++) cfg.push_back(C_(i % 3 != 2, i == 4 ? 20 : 0)); MM m; start(m); adv_for(1500); X x; x.name = "many"; x.depth = thorough() ? 6 : 5; x.sweep = sweep; for (int n : {1, 2, 9, 10, 11, 12, 16, 24}) x.add(sfmt("%d end at once", n), [=](MM &m) { M = &m; int c = 0; for (size_t k = 0; k < m.p.size() && c < n; k++) if (m.p[k].pid) { die((int)k, 0); c++; } wake(); }, on); for (int n : {8, 11, 24}) x.add(sfmt("%d end one by one", n), [=](MM &m) { M = &m; int c = 0; for (size_t k = m.p.size(); k-- > 0 && c < n;) if (m.p[k].pid) { die((int)k, 0); c++; wake(); } }, on);
        add_adv(x); add_for(x, 3000); add_term(x, SIGINT); x.run(m); }); }
void limits() { for (int v = 0; v < 3; v++) run_forked(sfmt("limits %d", v).c_str(), [=]() { cfg = {C_(true), C_(v == 1), C_(true)}; cfg[0].cpu = true; cfg[1].mem = true; cfg[1].cpu = v == 2; if (v == 1) cfg[0].comm = "my (proc) x"; if (v == 2) cfg[2].comm = "a) b"; if (v) cfg[2].mem = true; MM m; start(m); X x; x.name = sfmt("limits %d", v); x.depth = thorough() ? 8 : 6; x.sweep = sweep; for (int k = 0; k < 3; k++) { add_exit(x, k); add_hog(x, k, true); add_hog(x, k, false); } add_reuse(x); add_adv(x); add_for(x, 30000); add_for(x, 71000); add_term(x, SIGQUIT); x.run(m); }); }
void backoff() { run_forked("backoff", []() { cfg = {C_(true), C_(true)}; MM m; start(m); X x; x.name = "backoff"; x.depth = thorough() ? 18 : 14; x.sweep = sweep; auto dead = [](MM &m, int k) { M = &m; if (!m.p[(size_t)k].pid) { for (int n = 0; n < 400 && !m.p[(size_t)k].pid; n++) { advance(); sweep(m); } } if (m.p[(size_t)k].pid) { die(k, 0); wake(); } };
        x.add("p0 restarts and ends", [=](MM &m) { dead(m, 0); }, on); x.add("p0 runs 59 s and ends", [=](MM &m) { M = &m; for (int n = 0; n < 400 && !m.p[0].pid; n++) { advance(); sweep(m); } adv_for(55000); dead(m, 0); }, [](const MM &m) { return on(m) && m.p[0].starts < 6; }); x.add("p0 runs 64 s and ends", [=](MM &m) { M = &m; for (int n = 0; n < 400 && !m.p[0].pid; n++) { advance(); sweep(m); } adv_for(64000); dead(m, 0); }, [](const MM &m) { return on(m) && m.p[0].starts % 4 == 1; }); x.add("p1 restarts and ends", [=](MM &m) { dead(m, 1); }, [](const MM &m) { return on(m) && m.p[1].starts < 3; }); x.run(m); }); }
void c23() { startup(); histories(); pointwise(); many(); limits(); backoff(); }
}
// ---- the kernel
#define W extern "C" __attribute__((visibility("default")))
struct TT { bool o; TT() : o(rt::in_target) { rt::in_target = false; } ~TT() { rt::in_target = o; } };
W pid_t __wrap_fork(void) { TT t; if (child) violation("child", "a child forks again"); int r = rt::ext_call(FORK); if (r < 0) { errno = EAGAIN; return -1; } if (r > 0) point(); return r; }
static int do_exec(const char *p, char *const *a) { TT t; if (!child) violation("child", "exec in the master itself"); ch.path = p ? p : ""; ch.argv.clear(); for (int i = 0; a && a[i] && i < 64; i++) ch.argv.push_back(a[i]); if (M->exec_fail) { M->exec_fail = false; errno = ENOENT; return -1; } ch.exec = true; rt::ext_call(EXEC); return -1; }
W int __wrap_execvp(const char *p, char *const a[]) { return do_exec(p, a); }
W int __wrap_execv(const char *p, char *const a[]) { return do_exec(p, a); }
W int __wrap_execve(const char *p, char *const a[], char *const[]) { return do_exec(p, a); }
W int __wrap_execvpe(const char *p, char *const a[], char *const[]) { return do_exec(p, a); }
W void __wrap__exit(int c) { TT t; exit_(c); }
W pid_t __wrap_waitpid(pid_t p, int *st, int) { TT t; auto &z = M->zombies; for (size_t i = 0; i < z.size(); i++) if (p <= 0 || z[i].first == p) { int pid = z[i].first; if (st) *st = z[i].second; M->freed = pid; z.erase(z.begin() + (long)i); M->zt.erase(M->zt.begin() + (long)i); return pid; } for (auto &q : M->p) if (q.pid && (p <= 0 || q.pid == p)) return 0; errno = ECHILD; return -1; }
W int __wrap_sigprocmask(int how, const sigset_t *s, sigset_t *o) { TT t; if (o) { sigemptyset(o); for (int i = 1; i < 32; i++) if (M->blocked >> i & 1) sigaddset(o, i); } if (s) { unsigned long b = 0; for (int i = 1; i < 32; i++) if (sigismember(s, i)) b |= 1ul << i; if (!child) { if (how == SIG_BLOCK) M->blocked |= b; else if (how == SIG_UNBLOCK) M->blocked &= ~b; else M->blocked = b; } } point(); return 0; }
W int __wrap_pthread_sigmask(int how, const sigset_t *s, sigset_t *o) { return __wrap_sigprocmask(how, s, o); }
W uid_t __wrap_geteuid() { return child ? (uid_t)ch.uid : 0; }
W uid_t __wrap_getuid() { return child ? (uid_t)ch.uid : 0; }
W gid_t __wrap_getegid() { return child ? (gid_t)ch.gid : 0; }
W gid_t __wrap_getgid() { return child ? (gid_t)ch.gid : 0; }
W int __wrap_setuid(uid_t u) { TT t; if (!child) violation("user", "the master changes its own user"); if (ch.uid && ch.uid != (int)u) { errno = EPERM; return -1; } ch.uid = (int)u; return 0; }
W int __wrap_setgid(gid_t g) { TT t; if (!child) violation("user", "the master changes its own group"); if (ch.uid && ch.gid != (int)g) { errno = EPERM; return -1; } ch.gid = (int)g; return 0; }
W int __wrap_setreuid(uid_t, uid_t u) { return __wrap_setuid(u); }
W int __wrap_setregid(gid_t, gid_t g) { return __wrap_setgid(g); }
W int __wrap_setresuid(uid_t, uid_t u, uid_t) { return __wrap_setuid(u); }
W int __wrap_setresgid(gid_t, gid_t g, gid_t) { return __wrap_setgid(g); }
W int __wrap_initgroups(const char *, gid_t) { if (ch.uid) { errno = EPERM; return -1; } return 0; }
W int __wrap_setgroups(size_t, const gid_t *) { if (ch.uid) { errno = EPERM; return -1; } return 0; }
W struct passwd *__wrap_getpwnam(const char *n) { static struct passwd p; memset(&p, 0, sizeof p); if (!strcmp(n, "alice")) p.pw_uid = p.pw_gid = 1000; else if (!strcmp(n, "opendax")) p.pw_uid = p.pw_gid = 500; else if (strcmp(n, "root")) return nullptr; return &p; }
W struct group *__wrap_getgrnam(const char *n) { static struct group p; memset(&p, 0, sizeof p); if (!strcmp(n, "alice")) p.gr_gid = 1000; else if (!strcmp(n, "opendax")) p.gr_gid = 500; else if (strcmp(n, "root")) return nullptr; return &p; }
static FILE *fake(const string &s) { char *b = (char *)malloc(s.size() + 1); memcpy(b, s.c_str(), s.size() + 1); FILE *f = fmemopen(nullptr, s.size() + 1, "w+"); fwrite(b, 1, s.size(), f); rewind(f); free(b); M->files++; return f; }
W FILE *__wrap_fopen(const char *p, const char *m) {
    TT t; if (strncmp(p, "/proc/", 6)) return fopen(p, m); unsigned long et = (unsigned long)now_() / 10;
    if (!strcmp(p, "/proc/stat")) return fake(sfmt("cpu  %lu 0 0 %lu 0 0 0 0 0 0\ncpu0 %lu 0 0 %lu 0 0 0 0 0 0\ncpu1 1 2 3 4 0 0 0 0 0 0\nintr 1\n", et, et, et / 2, et - et / 2));
    int pid = atoi(p + 6), k = of_pid(pid); bool z = false; for (auto &q : M->zombies) z |= q.first == pid; if ((k < 0 && !z) || pid <= 0) { errno = ENOENT; return nullptr; }
    unsigned long pt = k >= 0 && M->p[(size_t)k].hog_cpu ? et : 0; long rss = k >= 0 && M->p[(size_t)k].hog_mem ? 501 : 500;
    return fake(sfmt("%d (%s) %c 1 1 1 0 -1 4194304 100 0 0 0 %lu %lu 0 0 20 0 1 0 12345 1000000 %ld 18446744073709551615 1 1 0 0 0 0 0 0 0 0 0 0 17 0 0 0 0 0 0\n", pid, k >= 0 ? cfg[(size_t)k].comm.c_str() : "proc", z ? 'Z' : 'S', pt / 2, pt - pt / 2, rss));
}
W int __wrap_fclose(FILE *f) { TT t; if (M && M->files > 0) M->files--; return fclose(f); }
int main(int argc, char **argv) {
    regs()["C23"] = {c23, "every sequence of process ends (alone, together, at once after their start), failed forks and execs, exceeded limits, time steps and stop signals over one to 24 configured processes up to the depth, with the ends and stop signals also at every memory access and call of the master's loop; what it forks, executes, waits for, signals and when is compared with the configuration"};
    string p = argc > 1 ? argv[1] : ""; begin(p.c_str(), argc, argv); auto it = regs().find(p); if (it == regs().end()) { fprintf(stderr, "unknown property\n"); return 97; }
    it->second.first(); return finish("model_checking", it->second.second, {"the clock does not jump", "states are identified by a 56-bit hash of the complete memory of the master and the model"});
}
