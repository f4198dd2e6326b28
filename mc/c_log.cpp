// C31: log services - every message goes to exactly the services (or the default one) whose topics contain its topic
#include "cscn.h"
#include <fcntl.h>
#include <dirent.h>
#include <stdarg.h>
#include <syslog.h>
namespace srv { std::string exe_dir(); extern void *lib; }
using Strs = std::vector<string>;
static Strs sink[11]; static string part[2];                     // 0 stdout, 1 stderr, 2+p syslog with priority p, 10 anything else
static ssize_t put_out(void *c, const char *d, size_t n) { string &p = part[(size_t)c]; p.append(d, n); size_t k; while ((k = p.find('\n')) != string::npos) { sink[(size_t)c].push_back(p.substr(0, k)); p.erase(0, k + 1); } return (ssize_t)n; }
extern "C" { __attribute__((visibility("default"))) void vsyslog(int pri, const char *f, va_list a) { char t[2048]; vsnprintf(t, sizeof t, f, a); sink[(pri & ~7) == LOG_USER ? 2 + (pri & 7) : 10].push_back(t); }
__attribute__((visibility("default"))) void syslog(int pri, const char *f, ...) { va_list a; va_start(a, f); vsyslog(pri, f, a); va_end(a); } }
namespace {
void load_log() { cli::load((srv::exe_dir() + "/client_log.so").c_str()); }   // the library with its own messages not taken away
FILE *cap[2], *real_[2];
void capture(bool on) { if (!cap[0]) for (size_t i = 0; i < 2; i++) { cookie_io_functions_t f = {}; f.write = put_out; cap[i] = fopencookie((void *)i, "w", f); setvbuf(cap[i], nullptr, _IONBF, 0); real_[i] = i ? stderr : stdout; } stdout = on ? cap[0] : real_[0]; stderr = on ? cap[1] : real_[1]; }
string base; struct Dir { Dir() { base = srv::exe_dir() + sfmt("/log_%d", (int)getpid()); mkdir(base.c_str(), 0700); } ~Dir() { if (DIR *d = opendir(base.c_str())) { while (dirent *e = readdir(d)) if (e->d_name[0] != '.') unlink((base + "/" + e->d_name).c_str()); closedir(d); } rmdir(base.c_str()); } };
string put(const string &t) { string path = base + sfmt("/%d.conf", (int)getpid()); int fd = ::open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); if (fd < 0 || ::write(fd, t.data(), t.size()) != (ssize_t)t.size()) _exit(92); ::close(fd); return path; }
struct Argv { std::vector<char *> a; Argv(const Strs &v) { for (auto &s : v) { char *p = (char *)api::c_malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); a.push_back(p); } a.push_back(nullptr); } int n() { return (int)a.size() - 1; } };
const struct { const char *n; uint32_t t; } TOPIC[] = {{"MINOR", DAX_LOG_MINOR}, {"MAJOR", DAX_LOG_MAJOR}, {"WARN", DAX_LOG_WARN}, {"ERROR", DAX_LOG_ERROR}, {"FATAL", DAX_LOG_FATAL}, {"MODULE", DAX_LOG_MODULE}, {"COMM", DAX_LOG_COMM}, {"MSG", DAX_LOG_MSG}, {"MSGERR", DAX_LOG_MSGERR}, {"CONFIG", DAX_LOG_CONFIG}, {"PROTOCOL", DAX_LOG_PROTOCOL}, {"INFO", DAX_LOG_INFO}, {"DEBUG", DAX_LOG_DEBUG}, {"LOGIC", DAX_LOG_LOGIC}, {"LOGICERR", DAX_LOG_LOGICERR}};
const int NT = 15; const char *PRI[] = {"EMERG", "ALERT", "CRIT", "ERR", "WARNING", "NOTICE", "INFO", "DEBUG"};
uint32_t mask_of(const string &s) { uint32_t m = 0; size_t i = 0; while (i <= s.size()) { size_t k = s.find(',', i); if (k == string::npos) k = s.size(); string w = s.substr(i, k - i); if (w == "ALL") m = 0xFFFFFFFFu; for (auto &t : TOPIC) if (w == t.n) m |= t.t; i = k + 1; } return m; }
struct Svc { int dest; uint32_t mask; };
struct Act { string name, lua; int kind; Svc svc; string text; };  // 0 nothing, 1 a good service, 2 one that must be refused, 3 print
std::vector<Act> menu; int CMDS; const Strs CMDLINE[] = {{}, {"-T", "WARN,LOGIC"}, {"--logtopics=INFO"}, {"-T", "NOSUCH"}, {"-v"}, {"-T", "DEBUG", "-v"}, {"-T", "ERROR,,LOGICERR,"}, {"--logtopics", ""}};
const uint32_t CMDMASK[] = {DAX_LOG_FATAL | DAX_LOG_ERROR, DAX_LOG_WARN | DAX_LOG_LOGIC, DAX_LOG_INFO, 0, DAX_LOG_ALL, DAX_LOG_ALL, DAX_LOG_ERROR | DAX_LOG_LOGICERR, 0};
struct LM { int cmd = -1; std::vector<int> a; uint64_t hash() const { uint64_t h = (uint64_t)cmd + 77; for (int i : a) h = h * 131 + (uint64_t)i; return h; } };
void good(const string &how, int dest, const string &topics) { menu.push_back({how + " for " + topics, "pcall(add_log_service, {type=" + how + ", topics=\"" + topics + "\"})", 1, {dest, mask_of(topics)}, ""}); }
void bad(const string &args) { menu.push_back({"refused: " + args, "pcall(add_log_service" + (args.empty() ? string() : ", " + args) + ")", 2, {}, ""}); }
string quoted(const string &s) { string r = "\""; for (char c : s) if (c == '"' || c == '\\') { r += '\\'; r += c; } else r += c; return r + "\""; }
void prints(const string &s) { menu.push_back({"print " + s.substr(0, 30), "print(" + quoted(s) + ")", 3, {}, s}); }
void fill(bool core) {
    menu.clear(); menu.push_back({"nothing", "", 0, {}, ""});
    good("\"stdio\", file=\"stdout\"", 0, "ERROR,FATAL"); good("\"stdio\", file=\"stderr\"", 1, "CONFIG,MAJOR,LOGIC"); good("\"syslog\", priority=\"WARNING\"", 6, "ALL"); bad("{type=\"stdio\", file=\"nosuch\", topics=\"ALL\"}"); bad("{type=\"stdio\", file=\"stdout\"}"); bad("{type=\"nosuch\", topics=\"ALL\"}"); prints("m100 plain");
    menu.push_back({"a service for INFO,FATAL if configdir is set", "pcall(add_log_service, {type=\"stdio\", file=\"stderr\", topics = type(configdir) == \"string\" and configdir ~= \"\" and \"FATAL,INFO\" or \"\"})", 1, {1, DAX_LOG_FATAL | DAX_LOG_INFO}, ""}); menu.push_back({"a service for WARN if calling_module is right", "pcall(add_log_service, {type=\"stdio\", file=\"stdout\", topics = (calling_module == \"mod\" or calling_module == \"tagserver\") and \"WARN\" or \"\"})", 1, {0, DAX_LOG_WARN}, ""});
    good("\"stdio\", file=\"stderr\"", 1, "NOSUCH"); good("\"stdio\", file=\"stdout\"", 0, "FATAL"); if (core) return;
    for (auto &t : TOPIC) good("\"stdio\", file=\"stdout\"", 0, t.n); good("\"STDIO\", file=\"StdErr\"", 1, "MSG,MSGERR,"); good("\"stdio\", file=\"stdout\"", 0, ""); good("\"stdio\", file=\"stdout\"", 0, ",,DEBUG,,INFO"); good("\"stdio\", file=\"stderr\"", 1, "PROTOCOL,COMM,MODULE,WARN,MINOR,LOGICERR"); good("\"stdio\", file=\"stdout\"", 0, "ERRORS,MSGERR2,error,LOG");
    for (int i = 0; i < 8; i++) good(string("\"syslog\", priority=\"") + PRI[i] + "\"", 2 + i, i & 1 ? "ERROR,CONFIG" : "ALL"); good("\"SysLog\", priority=\"err\"", 5, "LOGIC,INFO");
    for (auto s : {"", "nil", "5", "\"text\"", "print", "{}", "{type=\"stdio\", topics=\"ALL\"}", "{file=\"stdout\", topics=\"ALL\"}", "{type=\"syslog\", topics=\"ALL\"}", "{type=\"syslog\", topics=\"ALL\", priority=\"nosuch\"}", "{type=\"syslog\", topics=\"ALL\", file=\"stdout\"}", "{type=\"stdio\", topics=\"ALL\", file={}}", "{type=true, topics=\"ALL\"}", "{type=\"syslog\", topics=\"ALL\", priority=false}", "{type=\"stdio\", file=\"stdout\", topics={}}", "{type=\"\", file=\"stdout\", topics=\"ALL\"}"}) bad(s);
    prints("m101 100% %s %s %s %n %d"); prints("m102 " + string(249, 'x')); prints("m103 " + string(250, 'y')); prints("m104 " + string(251, 'z')); prints("m105 " + string(2000, 'w'));
}
Strs want[11];
struct Line { string label; string text; };
void expect(const std::vector<Svc> &v, uint32_t def, uint32_t topic, const string &text) { string l = "?"; for (auto &t : TOPIC) if (t.t == topic) l = t.n; if (v.empty()) { if (def & topic) want[0].push_back(l + "\x01" + text); return; } for (auto &s : v) if (s.mask & topic) want[s.dest].push_back(l + "\x01" + text); }
void compare(const char *name, const string &what) {
    for (int d = 0; d < 11; d++) { size_t k = 0; string dn = d == 0 ? "stdout" : d == 1 ? "stderr" : d < 10 ? string("syslog ") + PRI[d - 2] : "syslog (another facility)";
        for (auto &g : sink[d]) { S->checks++; size_t p = 0; string label = ""; if (d < 2) { string pre = string("[") + name + "] "; if (g.compare(0, pre.size(), pre)) violation("form", "%s: the line \"%s\" on %s does not begin with \"%s\"", what.c_str(), g.substr(0, 80).c_str(), dn.c_str(), pre.c_str()); size_t c = g.find(": ", pre.size()); if (c == string::npos) violation("form", "%s: the line \"%s\" on %s has no topic", what.c_str(), g.substr(0, 80).c_str(), dn.c_str()); label = g.substr(pre.size(), c - pre.size()); p = c + 2; }
            string t = g.substr(p); if (t[0] != 'm' || !isdigit((unsigned char)t[1])) continue;      // a message of the library itself
            if (k >= want[d].size()) violation("extra", "%s: \"%s\" also goes to %s", what.c_str(), t.substr(0, 80).c_str(), dn.c_str());
            string w = want[d][k++]; size_t q = w.find('\x01'); string wl = w.substr(0, q), wt = w.substr(q + 1); bool same = t == wt || (wt.size() > 255 && t.size() >= 255 && wt.compare(0, t.size(), t) == 0);
            if (!same) violation("wrong", "%s: %s receives \"%s\", expected \"%s\"", what.c_str(), dn.c_str(), t.substr(0, 80).c_str(), wt.substr(0, 80).c_str());
            if (d < 2 && wl != "?" && label != wl) violation("topic", "%s: %s shows topic %s for \"%s\", expected %s", what.c_str(), dn.c_str(), label.c_str(), t.substr(0, 40).c_str(), wl.c_str()); }
        if (k < want[d].size()) { string w = want[d][k]; violation("missing", "%s: \"%s\" (%s) does not arrive on %s", what.c_str(), w.substr(w.find('\x01') + 1).substr(0, 80).c_str(), w.substr(0, w.find('\x01')).c_str(), dn.c_str()); }
        outcome((uint64_t)d * 64 + k); }
}
void clear() { for (int i = 0; i < 11; i++) { sink[i].clear(); want[i].clear(); } part[0].clear(); part[1].clear(); }
const uint32_t EXTRA[] = {DAX_LOG_USER1, DAX_LOG_USER8, DAX_LOG_ERROR | DAX_LOG_COMM, DAX_LOG_CONFIG | DAX_LOG_INFO, 0};
typedef void (*log_t)(uint32_t, const char *, ...);
void messages(log_t lg, const std::vector<Svc> &v, uint32_t def) { int n = 0; auto one = [&](uint32_t t) { string x = sfmt("m%d message", n); lg(t, "m%d %s", n++, "message"); expect(v, def, t, x); }; for (auto &t : TOPIC) one(t.t); for (uint32_t t : EXTRA) one(t); for (int k = 1; k >= 0; k--) { string s = sfmt("m%d ", n++) + string(k ? 600 : 250, 'q'); lg(DAX_LOG_ERROR, "%s", s.c_str()); expect(v, def, DAX_LOG_ERROR, s); } lg(DAX_LOG_FATAL, "m900 %d%%", 50); expect(v, def, DAX_LOG_FATAL, "m900 50%"); }
string script(const LM &m, std::vector<Svc> &v, uint32_t def, bool pr) { string s; for (int i : m.a) { const Act &a = menu[(size_t)i]; if (a.kind == 3 && !pr) continue; s += a.lua + "\n"; if (a.kind == 1) v.push_back(a.svc); if (a.kind == 3) expect(v, def, DAX_LOG_CONFIG, a.text); } return s; }
string show(const LM &m) { string s; for (auto &c : CMDLINE[m.cmd]) s += c + " "; for (int i : m.a) if (i) s += "; " + menu[(size_t)i].name; return s; }
void exec_client(LM &m) {
    clear(); std::vector<Svc> v; uint32_t def = CMDMASK[m.cmd]; string file = put(script(m, v, def, true)); Strs av = {"mod", "-C", file}; av.insert(av.end(), CMDLINE[m.cmd].begin(), CMDLINE[m.cmd].end());
    cli::call(1, [&]() { capture(true); opterr = 0; char *nm = (char *)api::c_malloc(100); strcpy(nm, "mod"); dax_state *ds = api::dax_init(nm); memset(nm, 'X', 3); if (!ds) violation("refused", "dax_init failed"); Argv a(av); int r = api::dax_configure(ds, a.n(), a.a.data(), CFG_CMDLINE | CFG_MODCONF); if (r) violation("refused", "%s: dax_configure returns %d", show(m).c_str(), r); messages((log_t)rt::sym(cli::lib, "dax_log"), v, def); capture(false); });
    compare("mod", show(m)); S->histories++;
}
typedef Explorer<LM> LX;
void ops(LX &x, int ncmd) { for (int c = 0; c < ncmd; c++) x.add("command line " + sfmt("%d", c), [c](LM &m) { m.cmd = c; }, [](const LM &m) { return m.cmd < 0; }); for (size_t i = 0; i < menu.size(); i++) x.add(menu[i].name, [i](LM &m) { m.a.push_back((int)i); }, [i](const LM &m) { return m.cmd >= 0 && (i == 0 || m.a.empty() || m.a.back() != 0); }); }
void client(const char *nm, bool core, int depth) { run_forked(nm, [=]() { srv::load(); capture(true); load_log(); capture(false); Dir dir; fill(core); LM m; LX x; x.name = nm; x.depth = depth + 1; x.dedupe = false; x.leaf = exec_client; ops(x, core && !thorough() ? 3 : 8); x.run(m); }); }
void exec_server(LM &m) {
    clear(); std::vector<Svc> v; uint32_t def = CMDMASK[m.cmd]; string file = put(script(m, v, def, true)); Strs av = {"tagserver", "-C", file}; av.insert(av.end(), CMDLINE[m.cmd].begin(), CMDLINE[m.cmd].end());
    cli::call(0, [&]() { capture(true); opterr = 0; optind = 0; ((int (*)(const char *, uint32_t))rt::sym(srv::lib, "dax_init_logger"))("tagserver", DAX_LOG_ERROR | DAX_LOG_FATAL); Argv a(av); ((int (*)(int, const char **))rt::sym(srv::lib, "opt_configure"))(a.n(), (const char **)a.a.data()); messages((log_t)rt::sym(srv::lib, "dax_log"), v, def); capture(false); });
    compare("tagserver", show(m)); S->histories++;
}
void server(const char *nm, bool core, int depth) { run_forked(nm, [=]() { srv::load(); load_log(); Dir dir; fill(core); LM m; LX x; x.name = nm; x.depth = depth + 1; x.dedupe = false; x.leaf = exec_server; ops(x, core && !thorough() ? 3 : 8); x.run(m); }); }
// every set of topics, in both orders
struct TM { uint32_t s = 0; int next = 0; uint64_t hash() const { return s * 32ull + (uint64_t)next; } };
void parse() { run_forked("topic lists", []() { srv::load(); load_log(); TM m; Explorer<TM> x; x.name = "topic lists"; x.depth = NT + 1; x.dedupe = false; auto f = (uint32_t (*)(char *))rt::sym(cli::lib, "dax_parse_log_topics");
    x.leaf = [=](TM &m) { cli::call(1, [&]() { for (int rev = 0; rev < 2; rev++) { string s; uint32_t w = 0; for (int i = 0; i <= NT; i++) { int k = rev ? NT - i : i; if (!(m.s >> k & 1)) continue; if (!s.empty()) s += ","; s += k == NT ? "ALL" : TOPIC[k].n; w |= k == NT ? DAX_LOG_ALL : TOPIC[k].t; } char *p = (char *)api::c_malloc(s.size() + 1); strcpy(p, s.c_str()); uint32_t g = f(p); S->checks++; if (g != w) violation("parse", "the topics \"%s\" become %#x, expected %#x", s.c_str(), g, w); if (s != p) violation("parse", "the list of topics is changed"); api::c_free(p); } }); S->histories++; };
    for (int k = 0; k <= NT; k++) for (int b = 0; b < 2; b++) x.add(sfmt("%s%s", b ? "" : "no ", k == NT ? "ALL" : TOPIC[k].n), [=](TM &m) { m.s |= (uint32_t)b << k; m.next++; }, [=](const TM &m) { return m.next == k; }); x.run(m); }); }
// many services: all that are accepted work, one too many is refused without harm
void many() { run_forked("many services", []() { srv::load(); capture(true); load_log(); capture(false); Dir dir; Nil m; Explorer<Nil> x; x.name = "many services"; x.depth = 1;
    for (int n = 1; n <= 40; n++) for (int fault = 0; fault < 2; fault++) x.add(sfmt("%d services%s", n, fault ? ", every second one wrong" : ""), [=](Nil &) { clear(); string s = "local n = 0\n"; std::vector<Svc> v; for (int i = 0; i < n; i++) { if (fault) s += "pcall(add_log_service, {type=\"stdio\", file=\"none\", topics=\"ALL\"})\n"; s += string("pcall(add_log_service, {type=\"syslog\", priority=\"") + PRI[i % 8] + "\", topics=\"" + TOPIC[i % NT].n + "\"})\n"; if (i < 32) v.push_back({2 + i % 8, TOPIC[i % NT].t}); } string file = put(s); Strs av = {"mod", "-C", file};
        cli::call(1, [&]() { capture(true); opterr = 0; dax_state *ds = api::dax_init("mod"); Argv a(av); int r = api::dax_configure(ds, a.n(), a.a.data(), CFG_CMDLINE | CFG_MODCONF); if (r) violation("refused", "dax_configure returns %d", r); auto lg = (log_t)rt::sym(cli::lib, "dax_log"); for (auto &t : TOPIC) lg(t.t, "m%d", 1); capture(false); });
        for (int d = 2; d < 10; d++) { int w = 0, g = 0, more = 0; for (auto &t : TOPIC) { for (auto &q : v) if (q.dest == d && q.mask == t.t) w++; for (int i = 32; i < n; i++) if (i % 8 == d - 2 && TOPIC[i % NT].t == t.t) more++; } for (auto &l : sink[d]) if (l == "m1") g++; S->checks++; if (g < w || g > w + more) violation("services", "with %d services syslog %s receives %d messages, expected %d", n, PRI[d - 2], g, w); }
        S->histories++; }); x.run(m); }); }
// the name of the module: command line, file, default; it is what the server and the log see
void names() { run_forked("the module's name", []() { srv::load(); capture(true); load_log(); capture(false); srv::boot(); Dir dir; int wire = srv::connect(); srv::reg(wire, "wire"); Nil m; Explorer<Nil> x; x.name = "the module's name"; x.depth = 1;
    for (int c = 0; c < 3; c++) for (auto f : {"", "name = \"monkey\"", "name = \"a_very_long_name_of_a_module\"", "name = 5", "name = \"skel\"", "name = {}"}) for (int svc = 0; svc < 2; svc++) x.add(sfmt("command line %d, file %s%s", c, f, svc ? ", a log service" : ""), [=](Nil &) { clear();
        string q = f, fn = q.size() > 8 && q[7] == '"' ? q.substr(8, q.size() - 9) : q == "name = 5" ? "5" : "", w = c ? "two" : fn.empty() ? "skel" : fn; Strs av = {"skel", "-C", put(string(svc ? "add_log_service{type=\"stdio\", file=\"stderr\", topics=\"ERROR\"}\n" : "") + f + "\n")}; if (c == 1) { av.push_back("-N"); av.push_back("two"); } if (c == 2) av.push_back("--name=two");
        cli::call(1, [&]() { capture(true); opterr = 0; optind = 0; dax_state *ds = api::dax_init("skel"); Argv a(av); int r = api::dax_configure(ds, a.n(), a.a.data(), CFG_CMDLINE | CFG_MODCONF); if (r) violation("refused", "dax_configure returns %d", r); cli::must(api::dax_connect(ds), "dax_connect"); ((log_t)rt::sym(cli::lib, "dax_log"))(DAX_LOG_ERROR, "m1 text"); capture(false); });
        for (auto n : {"skel", "two", "monkey", "a_very_long_name_of_a_module", "5"}) { S->checks++; int e = srv::tag_get(wire, string("_m") + n).err; if ((e == 0) != (w == n)) violation("name", "the name is \"%s\", but the server %s a module tag _m%s", w.c_str(), e ? "has not" : "has", n); }
        expect({{1, DAX_LOG_ERROR}}, 0, DAX_LOG_ERROR, "m1 text"); if (!svc) std::swap(want[0], want[1]); compare(w.c_str(), "the name is " + w); S->histories++; }); x.run(m); }); }
void c31() { names(); parse(); many(); client("services", false, 2); client("more services", true, thorough() ? 5 : 4); server("services of the server", false, thorough() ? 2 : 1); server("more services of the server", true, thorough() ? 4 : 3); if (thorough()) client("three services", false, 3); }
Reg r31("C31", c31, "every sequence of calls of add_log_service (all destinations, topics and priorities, and every kind of call that must be refused) and of print() in the configuration, under every form of the command line's log options, for a module and for the server; then one message for every topic and for several topics at once, long and short; every destination's lines are compared with the model; all sets of topics; one to forty services");
}
