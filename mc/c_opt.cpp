// C22: configuration precedence - command line over file over default, for every option of client library and server
#include "cscn.h"
#include <getopt.h>
#include <fcntl.h>
#include <dirent.h>
#include <arpa/inet.h>
namespace srv { std::string exe_dir(); extern void *lib; }
namespace {

using Strs = std::vector<string>;
string base; string tmpd() { string d = base + sfmt("/%d", (int)getpid()); mkdir(d.c_str(), 0700); return d; }   // one directory per worker
void put(const string &path, const string &t) { int fd = ::open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); if (fd < 0 || ::write(fd, t.data(), t.size()) != (ssize_t)t.size()) _exit(92); ::close(fd); }
struct Dir { Dir() { base = srv::exe_dir() + sfmt("/opt_%d", (int)getpid()); mkdir(base.c_str(), 0700); } ~Dir() { if (DIR *d = opendir(base.c_str())) { while (dirent *e = readdir(d)) if (e->d_name[0] != '.') { string w = base + "/" + e->d_name; for (auto f : {"a.conf", "skel.conf", "two.conf", "x.conf"}) unlink((w + "/" + f).c_str()); rmdir(w.c_str()); } closedir(d); } rmdir(base.c_str()); } };
struct Argv { std::vector<char *> a; Argv(const Strs &v) { for (auto &s : v) { char *p = (char *)api::c_malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); a.push_back(p); } a.push_back(nullptr); all = a; } std::vector<char *> all; ~Argv() { for (auto p : all) if (p) api::c_free(p); } int n() { return (int)a.size() - 1; } };
// ---------------- options of a module
const int CMD = CFG_CMDLINE, FIL = CFG_MODCONF;
struct Kind { int src, arg; bool def, sh, lg, nov; };
const char *NAME[3] = {"alpha", "beta", "gamma_3"}, *LONG[3] = {"beta", "alpha", "alpha-two"}; const char SH[3] = {'a', 'b', 'A'}, *DEF[3] = {"defA", "defB", "defC"}, *CV[3] = {"cmd1", "-b", "u=9"};
enum { FABS, FSTR, FNUM, FTRUE, FFALSE, FTABLE, NF }; enum { CABS, CSEP, CJOIN, CLONG, CLONGEQ, NC };
struct Ch { int slot = 0; Kind k{}; int cmd = 0, file = 0; };
struct OM { std::vector<Ch> c; int flags = CMD | FIL, junk = 0, rev = 0, special = 0; uint64_t hash() const { uint64_t h = 1; for (auto &x : c) h = h * 1000003 + (uint64_t)(x.slot + 4 * (x.cmd + 8 * (x.file + 8 * (x.k.src + 32 * (x.k.arg + 4 * (x.k.def + 2 * (x.k.sh + 2 * (x.k.lg + 2 * x.k.nov)))))))); return ((h * 31 + (uint64_t)flags) * 31 + (uint64_t)junk) * 31 + (uint64_t)rev; } };
std::vector<Kind> kinds() { std::vector<Kind> v; for (int src : {CMD | FIL, CMD, FIL}) for (int arg : {CFG_ARG_REQUIRED, CFG_ARG_NONE, CFG_ARG_OPTIONAL}) for (int def = 0; def < 2; def++) for (int n = 0; n < 4; n++) v.push_back({src, arg, !!def, !(n & 1), !(n & 2), false}); for (int arg : {CFG_ARG_REQUIRED, CFG_ARG_NONE}) v.push_back({CMD | FIL, arg, true, true, true, true}); return v; }
string kname(const Ch &c) { return sfmt("%s{%s%s,%s%s%s%s%s}", NAME[c.slot], c.k.src & CMD ? "c" : "", c.k.src & FIL ? "f" : "", c.k.arg == CFG_ARG_REQUIRED ? "req" : c.k.arg ? "opt" : "none", c.k.def ? ",def" : "", c.k.sh ? "" : ",noshort", c.k.lg ? "" : ",nolong", c.k.nov ? ",novalue" : "") + " " + (const char *[]){"", "-x v", "-xv", "--long v", "--long=v"}[c.cmd] + " " + (const char *[]){"", "file string", "file number", "file true", "file false", "file table"}[c.file]; }
Strs args(const Ch &c) { string v = CV[c.slot], s = string("-") + SH[c.slot], l = string("--") + LONG[c.slot]; bool none = c.k.arg == CFG_ARG_NONE; if (c.k.arg == CFG_ARG_OPTIONAL && (c.cmd == CSEP || c.cmd == CLONG)) v = "word"; switch (c.cmd) { case CSEP: return none ? Strs{s} : Strs{s, v}; case CJOIN: return {none ? s : s + v}; case CLONG: return none ? Strs{l} : Strs{l, v}; case CLONGEQ: return {none ? l : l + "=" + v}; } return {}; }
bool sensible(const Ch &c) { if (c.k.arg == CFG_ARG_OPTIONAL && (c.cmd == CSEP || c.cmd == CLONG) && 0) return false; bool longf = c.cmd == CLONG || c.cmd == CLONGEQ; if (c.cmd && (longf ? !c.k.lg : !c.k.sh)) return false; if (c.k.arg == CFG_ARG_NONE && (c.cmd == CJOIN || c.cmd == CLONGEQ)) return false; if (!(c.k.src & CMD) && c.cmd == CSEP && 0) return false; return true; }
string ftext(const Ch &c) { string n = NAME[c.slot]; switch (c.file) { case FSTR: return n + " = \"file" + n + "\"\n"; case FNUM: return n + sfmt(" = %d\n", 42 + c.slot); case FTRUE: return n + " = true\n"; case FFALSE: return n + " = false\n"; case FTABLE: return n + " = {1, 2}\n"; } return ""; }
string fval(const Ch &c) { switch (c.file) { case FSTR: return string("file") + NAME[c.slot]; case FNUM: return sfmt("%d", 42 + c.slot); case FTRUE: return "true"; case FFALSE: return "false"; } return ""; }
std::vector<std::pair<string, string>> called; int on_attr(char *n, char *v) { called.push_back({n, v ? v : "(none)"}); return 0; }
const Strs JUNK[] = {{}, {"-q"}, {"--unknown"}, {"--unknown=alpha"}, {"stray"}, {"--", "-a", "late"}, {"-qz"}};
const char *txt(const char *p) { return p ? p : "(none)"; }
// runs the real library on this configuration and compares every option with what it must be
void execute(OM &m) {
    if (m.c.size() == 3 && m.c[1].cmd >= CLONG && !(m.c[1].k.src & CMD) && m.c[2].k.lg && (m.c[2].k.src & CMD)) return;   // getopt takes it for an abbreviation
    string file = tmpd() + "/a.conf"; string ft; for (auto &c : m.c) ft += ftext(c); put(file, ft);
    Strs av = {"mod", "-C", file}; Strs j = JUNK[m.junk]; std::vector<Ch> o = m.c; if (m.rev) std::reverse(o.begin(), o.end());
    if (m.rev) av.insert(av.end(), j.begin(), j.end()); if (m.rev && m.junk == 5) { } else for (auto &c : o) { Strs a = args(c); av.insert(av.end(), a.begin(), a.end()); } if (!m.rev) av.insert(av.end(), j.begin(), j.end());
    bool cut = m.rev && m.junk == 5;                             // nothing after "--" is an option
    cli::call(1, [&]() {
        called.clear(); opterr = 0; dax_state *ds = api::dax_init("mod"); if (!ds) violation("refused", "dax_init failed");
        for (auto &c : o) { int r = api::dax_add_attribute(ds, (char *)NAME[c.slot], (char *)(c.k.lg ? LONG[c.slot] : nullptr), c.k.sh ? SH[c.slot] : 0, c.k.src | c.k.arg | (c.k.nov ? CFG_NO_VALUE : 0), (char *)(c.k.def ? DEF[c.slot] : nullptr)); if (r) violation("refused", "the option %s is refused with error %d", NAME[c.slot], r); r = api::dax_attr_callback(ds, (char *)NAME[c.slot], on_attr); if (r) violation("refused", "the callback for %s is refused with error %d", NAME[c.slot], r); }
        Argv a(av); int r = api::dax_configure(ds, a.n(), a.a.data(), m.flags); if (r && (m.flags & CMD)) violation("refused", "dax_configure returns %d", r);
        for (auto &c : m.c) {
            S->checks++; const char *g = api::dax_get_attr(ds, (char *)NAME[c.slot]); Strs ok; bool need = false; string cb; int cbn = 0;
            bool given = c.cmd && !cut && (c.k.src & CMD) && (m.flags & CMD), infile = c.file && c.file != FTABLE && (c.k.src & FIL) && (m.flags & CMD) && (m.flags & FIL);
            bool noarg = c.k.arg == CFG_ARG_NONE || (c.k.arg == CFG_ARG_OPTIONAL && (c.cmd == CSEP || c.cmd == CLONG));
            if (given && !c.k.nov) { if (noarg) { ok = {"Yes"}; if (c.k.arg == CFG_ARG_OPTIONAL && c.k.def) ok.push_back(DEF[c.slot]); } else ok = {CV[c.slot]}; cbn = 1; cb = noarg ? "" : CV[c.slot]; }
            else if (given) { cbn = 1; cb = noarg ? "" : CV[c.slot]; ok = {c.k.def ? DEF[c.slot] : "(none)"}; if (infile) { cbn = 2; cb = ""; } }
            else if (infile) { cbn = 1; cb = fval(c); if (c.k.nov) ok = {c.k.def ? DEF[c.slot] : "(none)"}; else if (c.k.arg == CFG_ARG_NONE) ok = {"Yes", fval(c), c.file == FFALSE ? (c.k.def ? DEF[c.slot] : "(none)") : "Yes"}; else ok = {fval(c)}; if (c.k.arg == CFG_ARG_NONE) cb = ""; }
            else ok = {c.k.def ? DEF[c.slot] : "(none)"};
            (void)need; bool hit = false; for (auto &x : ok) if (x == txt(g)) hit = true; outcome((uint64_t)(given * 8 + infile * 4 + (g != nullptr)) * 16 + (uint64_t)c.k.arg);
            string line; for (auto &x : av) line += " " + (x == file ? string("FILE") : x);
            if (!hit) violation("value", "%s is \"%s\", expected \"%s\"; command line:%s; file: %s", kname(c).c_str(), txt(g), ok[0].c_str(), line.c_str(), ft.c_str());
            int n = 0; for (auto &x : called) if (x.first == NAME[c.slot]) { n++; if (!cb.empty() && x.second != cb) violation("callback", "the callback of %s gets \"%s\", expected \"%s\"; command line:%s", kname(c).c_str(), x.second.c_str(), cb.c_str(), line.c_str()); }
            if (c.file == FFALSE && c.k.arg == CFG_ARG_NONE) continue; if (cbn == 2 ? n < 1 : n != cbn) violation("callback", "the callback of %s is called %d times, expected %d; command line:%s; file: %s", kname(c).c_str(), n, cbn, line.c_str(), ft.c_str());
        }
        if (m.flags & CMD) { const char *g = api::dax_get_attr(ds, (char *)"config"); if (string(txt(g)) != file) violation("value", "the option config is \"%s\" afterwards, expected \"%s\"", txt(g), file.c_str()); }
        for (auto &x : {std::make_pair("socketname", "/tmp/opendax"), std::make_pair("serverip", "127.0.0.1"), std::make_pair("serverport", "7777"), std::make_pair("server", "LOCAL"), std::make_pair("name", "mod"), std::make_pair("cachesize", "8")}) { const char *g = api::dax_get_attr(ds, (char *)x.first); if (string(txt(g)) != x.second) violation("value", "the option %s is \"%s\" though nobody set it", x.first, txt(g)); }
        for (auto &n : {"verbose", "logtopics"}) if (api::dax_get_attr(ds, (char *)n)) violation("value", "the option %s is \"%s\" though nobody set it", n, api::dax_get_attr(ds, (char *)n));
        if (api::dax_get_attr(ds, (char *)"beta_")) violation("value", "an option that does not exist has a value"); api::dax_free(ds); });
}
typedef Explorer<OM> X;
std::vector<Ch> choices(int slot, bool all) { std::vector<Ch> v; int n = 0; for (auto &k : kinds()) for (int c = 0; c < NC; c++) for (int f = 0; f < NF; f++) { Ch x; x.slot = slot; x.k = k; x.cmd = c; x.file = f; if (!sensible(x)) continue; if (!all && (f == FTRUE || f == FTABLE || c == CLONGEQ)) continue; if (!all && (n++ % 5)) continue; v.push_back(x); } return v; }
void pairs() { run_forked("two options", []() { srv::load(); cli::load(); Dir dir; OM m; X x; x.name = "two options"; x.depth = 2; x.dedupe = false; x.leaf = execute;
    for (auto &c : choices(0, true)) x.add(kname(c), [c](OM &m) { m.c.push_back(c); m.rev = (c.cmd + c.file) & 1; }, [](const OM &m) { return m.c.size() == 0; });
    for (auto &c : choices(1, thorough())) x.add(kname(c), [c](OM &m) { m.c.push_back(c); }, [](const OM &m) { return m.c.size() == 1; }); 
    x.run(m); }); }
void three() { run_forked("three options", []() { srv::load(); cli::load(); Dir dir; OM m; X x; x.name = "three options"; x.depth = 3; x.dedupe = false; x.leaf = execute; int s = thorough() ? 1 : 5;
    for (int slot = 0; slot < 3; slot++) { int n = 0; for (auto &c : choices(slot, false)) { if (n++ % (thorough() ? 2 : 6) && s) continue; x.add(kname(c), [c](OM &m) { m.c.push_back(c); m.rev ^= c.cmd & 1; }, [slot](const OM &m) { return (int)m.c.size() == slot; }); } }
    x.run(m); }); }
void single() { run_forked("one option", []() { srv::load(); cli::load(); Dir dir; OM m; X x; x.name = "one option"; x.depth = 2; x.dedupe = false; x.leaf = execute;
    for (int f : {CMD | FIL, CMD, FIL}) for (int j = 0; j < 7; j++) for (int r = 0; r < 2; r++) x.add(sfmt("flags %d, extra argument %d %s", f, j, r ? "before" : "after"), [=](OM &m) { m.flags = f; m.junk = j; m.rev = r; m.special = 1; }, [](const OM &m) { return !m.special; });
    for (int slot = 0; slot < 3; slot++) for (auto &c : choices(slot, true)) x.add(kname(c), [c](OM &m) { m.c.push_back(c); }, [](const OM &m) { return m.special == 1; }); x.run(m); }); }
// the options every module has
struct BO { const char *n, *l; char s; int src; const char *def, *c, *f; }; const BO B[] = {{"socketname", "socketname", 'U', 3, "/tmp/opendax", "/tmp/c", "/tmp/f"}, {"serverip", "serverip", 'I', 3, "127.0.0.1", "0.0.0.0", "10.1.2.3"}, {"serverport", "serverport", 'P', 3, "7777", "0", "8888"}, {"server", "server", 'S', 3, "LOCAL", "10.0.0.9", "TCP"}, {"name", "name", 'N', 3, "skel", "two", "x"}, {"cachesize", "cachesize", 'Z', 3, "8", "1", "3"}, {"msgtimeout", "msgtimeout", 'O', 3, nullptr, "700", "800"}, {"logtopics", "logtopics", 'T', 1, nullptr, "comm", "error"}, {"confdir", "confdir", 'K', 1, "/nonexistent", "/tmp/k", "/tmp/q"}, {"verbose", "verbose", 'v', 1, nullptr, nullptr, "x"}};
struct BM { std::vector<int> cmd, file; uint64_t hash() const { uint64_t h = 7; for (int i : cmd) h = h * 31 + (uint64_t)i; for (int i : file) h = h * 37 + (uint64_t)i; return h; } };
void builtin() { run_forked("the options of every module", []() { srv::load(); cli::load(); Dir dir; BM m; Explorer<BM> x; x.name = "the options of every module"; x.depth = thorough() ? 4 : 3; x.dedupe = false; string deftmo;
    cli::call(1, [&]() { dax_state *ds = api::dax_init("skel"); Argv a({"skel"}); api::dax_configure(ds, a.n(), a.a.data(), CMD); deftmo = txt(api::dax_get_attr(ds, (char *)"msgtimeout")); api::dax_free(ds); });
    x.leaf = [=](BM &m) { string ft; string file = tmpd() + "/a.conf"; Strs av = {"skel", "-C", file}; for (int i : m.cmd) { const BO &b = B[i / 3]; if (!b.c) { if (i % 3 == 0) av.push_back("-v"); else av.push_back("--verbose"); } else if (i % 3 == 0) { av.push_back(string("-") + b.s); av.push_back(b.c); } else if (i % 3 == 1) { av.push_back(string("--") + b.l); av.push_back(b.c); } else av.push_back(string("--") + b.l + "=" + b.c); } for (int i : m.file) ft += string(B[i].n) + " = \"" + B[i].f + "\"\n"; put(file, ft);
        cli::call(1, [&]() { opterr = 0; dax_state *ds = api::dax_init("skel"); Argv a(av); int r = api::dax_configure(ds, a.n(), a.a.data(), CMD | FIL); if (r) violation("refused", "dax_configure returns %d", r);
            for (int i = 0; i < 10; i++) { S->checks++; const BO &b = B[i]; string w = b.def ? b.def : i == 6 ? deftmo : "(none)"; bool c = false, f = false; for (int k : m.cmd) if (k / 3 == i) c = true; for (int k : m.file) if (k == i && b.src & 2) f = true; if (c) w = b.c ? b.c : "Yes"; else if (f) w = b.f; const char *g = api::dax_get_attr(ds, (char *)b.n); if (w != txt(g)) { string line; for (auto &s : av) line += " " + s; violation("value", "the option %s is \"%s\", expected \"%s\"; command line:%s; file: %s", b.n, txt(g), w.c_str(), line.c_str(), ft.c_str()); } }
            if (string(txt(api::dax_get_attr(ds, (char *)"config"))) != file) violation("value", "the option config is \"%s\"", txt(api::dax_get_attr(ds, (char *)"config"))); api::dax_free(ds); }); };
    for (int i = 0; i < 30; i++) if (!(i / 3 == 9 && i % 3 == 2)) x.add(string("command line ") + B[i / 3].n + sfmt(" form %d", i % 3), [=](BM &m) { m.cmd.push_back(i); }, [=](const BM &m) { for (int k : m.cmd) if (k / 3 == i / 3) return false; return true; });
    for (int i = 0; i < 10; i++) x.add(string("file ") + B[i].n, [=](BM &m) { m.file.push_back(i); }, [=](const BM &m) { for (int k : m.file) if (k >= i) return false; return true; });
    x.add("nothing", [](BM &) {}); x.run(m); }); }
// which file is read
void files() { run_forked("which file", []() { srv::load(); cli::load(); Dir dir; Nil m; Explorer<Nil> x; x.name = "which file"; x.depth = 1;
    for (int cfg = 0; cfg < 2; cfg++) for (int kd = 0; kd < 2; kd++) for (int nm = 0; nm < 2; nm++) for (int fnm = 0; fnm < 2; fnm++) for (int miss = 0; miss < 3; miss++) x.add(sfmt("config %d confdir %d name %d file name %d %s", cfg, kd, nm, fnm, miss == 2 ? "broken" : miss ? "missing" : ""), [=](Nil &) {
        string d = tmpd(); string mod = nm ? "two" : "skel"; for (auto f : {"a.conf", "skel.conf", "two.conf", "x.conf"}) { put(d + "/" + f, string("serverport = \"") + f + "\"\n" + (fnm ? "name = \"x\"\n" : "") + (miss == 2 ? "this is not lua\n" : "")); if (miss == 1) unlink((d + "/" + f).c_str()); }
        Strs av = {"skel"}; if (cfg) { av.push_back("-C"); av.push_back(d + "/a.conf"); } if (kd) { av.push_back("--confdir"); av.push_back(d); } if (nm) { av.push_back("-N"); av.push_back("two"); }
        string w = cfg ? "a.conf" : kd ? mod + ".conf" : ""; if (miss) w = "";
        cli::call(1, [&]() { dax_state *ds = api::dax_init("skel"); Argv a(av); int r = api::dax_configure(ds, a.n(), a.a.data(), CMD | FIL); S->checks++; if ((r == 0) != !w.empty()) violation("file", "dax_configure returns %d", r); string g = txt(api::dax_get_attr(ds, (char *)"serverport")); if (g != (w.empty() ? "7777" : w)) violation("file", "the option serverport comes from %s, expected %s", g.c_str(), w.empty() ? "the default" : w.c_str());
            string n = txt(api::dax_get_attr(ds, (char *)"name")); string wn = nm ? "two" : fnm && !w.empty() ? "x" : "skel"; if (n != wn) violation("value", "the name is \"%s\", expected \"%s\"", n.c_str(), wn.c_str()); api::dax_free(ds); });
        for (auto f : {"a.conf", "skel.conf", "two.conf", "x.conf"}) unlink((d + "/" + f).c_str()); }); x.run(m); }); }
// attributes set by the program; names that cannot be used
struct SM { std::map<string, string> v; uint64_t hash() const { uint64_t h = 3; for (auto &p : v) for (char c : p.first + p.second) h = h * 131 + (uint64_t)c; return h; } };
void setattr() { run_forked("set and add", []() { srv::load(); cli::load(); SM m; Explorer<SM> x; x.name = "set and add"; x.depth = thorough() ? 4 : 3; static dax_state *ds; cli::call(1, [&]() { ds = api::dax_init("skel"); }); std::map<string, string> def; for (auto &b : B) def[b.n] = "(none)"; m.v = def; def = {{"socketname", "/tmp/opendax"}, {"serverip", "127.0.0.1"}, {"serverport", "7777"}, {"server", "LOCAL"}, {"name", "skel"}, {"cachesize", "8"}, {"confdir", "/nonexistent"}, {"logtopics", "(none)"}, {"verbose", "(none)"}};
    auto look = [](SM &s) { cli::call(1, [&]() { for (auto &p : s.v) { S->checks++; const char *g = api::dax_get_attr(ds, (char *)p.first.c_str()); if (p.second != txt(g)) violation("value", "the option %s is \"%s\", expected \"%s\"", p.first.c_str(), txt(g), p.second.c_str()); } }); };
    x.sweep = look;
    for (auto n : {"serverip", "logtopics", "verbose", "nosuch"}) for (auto v : {"one", "", (const char *)nullptr, "itself"}) x.add(sfmt("set %s to %s", n, txt(v)), [=](SM &s) { cli::call(1, [&]() { const char *val = v; if (v && !strcmp(v, "itself")) val = api::dax_get_attr(ds, (char *)n); int r = api::dax_set_attr(ds, (char *)n, (char *)val); bool known = s.v.count(n); if ((r == 0) != known) violation("refused", "dax_set_attr of %s returns %d", n, r); if (known) s.v[n] = val == v ? (v ? v : def.at(n)) : s.v[n] == "(none)" ? def.at(n) : s.v[n]; }); });
    for (auto n : {"serverip", "alpha", "beta", "1x", "a-b", "", "_u"}) for (auto l : {"serverip", "alpha", "x y", (const char *)nullptr}) for (char c : {'I', 'a', '\0'}) x.add(sfmt("add %s --%s -%c", n, txt(l), c ? c : ' '), [=](SM &s) { bool bad = !*n || (!isalpha(*n) && *n != '_') || strchr(n, '-') || (l && strchr(l, ' ')) || s.v.count(n); bool dup = (l && (!strcmp(l, "serverip") || s.v.count(string("\x01l") + l))) || c == 'I' || (c && s.v.count(string("\x01s") + c)); cli::call(1, [&]() { int r = api::dax_add_attribute(ds, (char *)n, (char *)l, c, CFG_CMDLINE | CFG_ARG_REQUIRED, (char *)"d"); if ((r != 0) != (bad || dup)) violation("refused", "adding the option %s --%s -%c returns %d", n, txt(l), c ? c : ' ', r); if (!r) { s.v[n] = "(none)"; if (l) s.v[string("\x01l") + l] = "(none)"; if (c) s.v[string("\x01s") + c] = "(none)"; } }); });
    x.run(m); }); }
// ---------------- the server
struct VM { std::vector<int> v; uint64_t hash() const { uint64_t h = 7; for (int i : v) h = h * 31 + (uint64_t)i; return h; } };
void server() { run_forked("server options", []() { srv::load(); auto conf = (int (*)(int, const char **))rt::sym(srv::lib, "opt_configure"); auto ip = (in_addr (*)())rt::sym(srv::lib, "opt_serverip"); auto port = (unsigned (*)())rt::sym(srv::lib, "opt_serverport"); auto sock = (char *(*)())rt::sym(srv::lib, "opt_socketname"), excl = (char *(*)())rt::sym(srv::lib, "opt_mod_tag_exclude"); auto minb = (int (*)())rt::sym(srv::lib, "opt_min_buffers");
    Dir dir; VM m; Explorer<VM> x; x.name = "server options"; x.depth = thorough() ? 6 : 5; x.dedupe = false; { int n = ::open("/dev/null", O_WRONLY); dup2(n, 1); ::close(n); }
    static const struct { const char *l; char s; const char *c[2], *f[2]; } O[] = {{"socketname", 'S', {"/tmp/c", "c2"}, {"socketname = \"/tmp/f\"", "socketname = 5"}}, {"serverip", 'I', {"10.0.0.1", "0.0.0.0"}, {"serverip = \"10.0.0.2\"", "serverip = \"0.0.0.0\""}}, {"serverport", 'P', {"8001", "0x1f90"}, {"serverport = 8002", "serverport = \"8003\""}}, {"mod-tag-exclude", 'X', {"cx", ""}, {"mod_tag_exclude = \"fx\"", "mod_tag_exclude = \"\""}}, {"logtopics", 'T', {"comm", "error"}, {"min_buffers = 9", "min_buffers = 12"}}};
    static const char *F0[] = {"/tmp/f", "10.0.0.2", "8002", "fx", "9"}, *F1[] = {"5", "0.0.0.0", "8003", "", "12"}, *C1[] = {"c2", "0.0.0.0", "8080", "", ""}, *D[] = {"/tmp/opendax", "0.0.0.0", "7777", "(none)", ""};
    x.leaf = [=](VM &m) { string ft, file = tmpd() + "/a.conf"; Strs av = {"tagserver", "-C", file}; std::vector<string> w; int defmin = -1; (void)defmin; for (int i = 0; i < (int)m.v.size() && i < 5; i++) { int q = m.v[(size_t)i], c = q % 7, f = q / 7; if (f) ft += string(O[i].f[f - 1]) + "\n"; if (c) { const char *val = O[i].c[(c - 1) / 3]; int form = (c - 1) % 3; if (form == 0) { av.push_back(string("-") + O[i].s); av.push_back(val); } else if (form == 1) { av.push_back(string("--") + O[i].l); av.push_back(val); } else av.push_back(string("--") + O[i].l + "=" + val); }
            if (i == 4) w.push_back(f == 0 ? "*" : f == 1 ? F0[4] : F1[4]); else w.push_back(c ? (c <= 3 ? O[i].c[0] : C1[i]) : f == 1 ? F0[i] : f == 2 ? F1[i] : D[i]); }
        put(file, ft); if (m.v.size() > 5) { if (m.v[5] == 1) av.push_back("-q"); if (m.v[5] == 2) av.push_back("--what=3"); if (m.v[5] == 3) av.push_back("-v"); if (m.v[5] == 4) av.push_back("-P"); }
        cli::call(0, [&]() { opterr = 0; optind = 0; Argv a(av); conf(a.n(), (const char **)a.a.data()); struct in_addr q = ip(); std::vector<string> g = {txt(sock()), inet_ntoa(q), sfmt("%u", port()), txt(excl()), sfmt("%d", minb())}; for (size_t i = 0; i < w.size(); i++) { S->checks++; if (w[i] != "*" && g[i] != w[i]) { string line; for (auto &s : av) line += " " + s; violation("value", "the server's option %s is \"%s\", expected \"%s\"; command line:%s; file: %s", i == 4 ? "min_buffers" : O[i].l, g[i].c_str(), w[i].c_str(), line.c_str(), ft.c_str()); } } }); };
    static const char *cn[] = {"", "-x v", "--x v", "--x=v", "-x w", "--x w", "--x=w"}; for (int i = 0; i < 5; i++) for (int q = 0; q < 21; q++) { int c = q % 7; if (!thorough() && (c == 2 || c == 6 || (i > 2 && c == 5))) continue; x.add(string(O[i].l) + " " + cn[c] + sfmt(" file %d", q / 7), [=](VM &m) { m.v.push_back(q); }, [=](const VM &m) { return (int)m.v.size() == i; }); }
    for (int j = 0; j < 5; j++) x.add(sfmt("extra %d", j), [=](VM &m) { m.v.push_back(j); }, [](const VM &m) { return m.v.size() == 5; });
    x.run(m); }); }
void c22() { single(); builtin(); files(); setattr(); server(); pairs(); three(); }
Reg r22("C22", c22, "every kind of option (sources, argument kinds, with and without default, short and long name) in every combination of command line forms and file values, alone with every kind of foreign argument and in pairs and triples; the options every module has; which file is read; options set by the program and refused ones; all options of the server; values and callbacks are compared with the documented precedence");
}
