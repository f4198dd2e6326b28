// C30: the command line client connected to the real tag server; the harness types the commands, reads the answers and watches the server.
#include "dl.h"
#include <sstream>
using namespace dl;
namespace {
static char *out, *err_, *line; static int *outn, *errn, *eof_, *prompts, *exited; static const Prog P = {"daxc.so", "daxc_main", "daxc", 2};
static void on_exit_(int c) { *exited = 1 + (c & 0xff); for (;;) rt::ext_call(99); }
static int wait_() { return rt::ext_call(51); }
static void mload() {
    prog = P; load(); rt::exit_hook = on_exit_;
#define V(v, n) v = (decltype(v))rt::sym(lib, "mc_" #n)
    V(out, out); V(err_, err); V(line, line); V(outn, outn); V(errn, errn); V(eof_, eof); V(prompts, prompts); V(exited, exited);
    *(int (**)())rt::sym(lib, "mc_wait") = wait_;
}
static void forked(const string &n, const std::function<void()> &f) { if (const char *o = getenv("MC_ONLY")) if (*o && n.find(o) != 0) return; run_forked(n.c_str(), f); }
static int at_prompt() { for (int i = 0; i < rt::MAXCO; i++) if (rt::alive(i) && rt::ext_pending(i) == 51) return i; return -1; }
static string O, E;                                      // what the last command printed
static void take() { O.assign(out, (size_t)*outn); E.assign(err_, (size_t)*errn); memset(out, 0, (size_t)*outn); memset(err_, 0, (size_t)*errn); *outn = *errn = 0; }
static void need_prompt(const string &w) { if (*exited || !running()) violation("died", "daxc has ended after: %s", w.c_str()); if (at_prompt() < 0) violation("hang", "daxc does not come back to the prompt after: %s", w.c_str()); }
enum { T_, U_, A_, B_, R_, S_, P_, RO, NT }; static const char *TN[NT] = {"t", "u", "a", "b", "r", "s", "p", "ro"};
static uint32_t TY[NT] = {DAX_INT, DAX_INT, DAX_DINT, DAX_BOOL, DAX_REAL, DAX_CHAR, 0, DAX_INT}; static const uint32_t TC[NT] = {1, 1, 4, 12, 1, 8, 1, 1}, TS[NT] = {2, 2, 16, 2, 4, 8, 11, 2}; static int id[NT];
static void type(const string &s, int64_t ms = 0) { int c = at_prompt(); if (c < 0) violation("harness", "daxc is not at the prompt"); snprintf(line, 4096, "%s", s.c_str()); rt::dirty_stack(c, (uint32_t)id[R_], 16384); rt::ext_answer(c, 1); idle(); if (ms) pass(ms); memset(line, 0, s.size()); take(); need_prompt(s); }
static vector<string> toks(const string &s) { vector<string> v; std::istringstream i(s); string w; while (i >> w) v.push_back(w); return v; }
static string cut(string s) { for (char &c : s) if (c == '\n') c = '|'; return s.substr(0, 300); }
struct Ev { int n, tag, pend; };
struct MM { Bytes v[NT], ov, om; bool ovon = false, gone[NT] = {}, map = false; vector<Ev> ev; int next = 0; struct New { string name; uint32_t type, count, attr; int idx; }; vector<New> add; int ovt = -1;
    uint64_t hash() const { uint64_t h = (uint64_t)map + 2 * (uint64_t)ovon; for (auto &b : v) for (uint8_t c : b) h = h * 257 + c + 1; for (bool g : gone) h = h * 3 + g; for (auto &e : ev) h = h * 31 + (uint64_t)(e.n * 16 + e.tag * 4 + e.pend); for (uint8_t c : ov) h = h * 7 + c; for (auto &n : add) h = h * 131 + n.name[1] + n.count; return h * 31 + (uint64_t)(next + 1); }
    Bytes see(int i) const { Bytes b = v[i]; if (ovt == i && ovon) for (size_t k = 0; k < b.size(); k++) b[k] = (uint8_t)((b[k] & ~om[k]) | (ov[k] & om[k])); return b; } };
typedef Explorer<MM> MX;
static string hx(const Bytes &d) { return srv::hex(d); }
static Bytes i2(int v) { return by({v, v >> 8}); } static Bytes i4(int v) { return by({v, v >> 8, v >> 16, v >> 24}); } static Bytes f4(float f) { Bytes b(4); memcpy(b.data(), &f, 4); return b; }
static int64_t num(const Bytes &b, size_t o, size_t n) { int64_t v = 0; for (size_t i = 0; i < n; i++) v |= (int64_t)b[o + i] << (8 * i); return n == 2 ? (int16_t)v : n == 4 ? (int32_t)v : v; }
static void put(Bytes &b, size_t o, const Bytes &x) { for (size_t i = 0; i < x.size(); i++) b[o + i] = x[i]; }
static string basename_(uint32_t t) { static const std::map<uint32_t, string> n = {{DAX_BOOL, "BOOL"}, {DAX_INT, "INT"}, {DAX_DINT, "DINT"}, {DAX_REAL, "REAL"}, {DAX_CHAR, "CHAR"}, {DAX_UDINT, "UDINT"}, {DAX_TIME, "TIME"}, {DAX_LINT, "LINT"}, {DAX_SINT, "SINT"}, {DAX_BYTE, "BYTE"}, {DAX_WORD, "WORD"}, {DAX_UINT, "UINT"}, {DAX_LREAL, "LREAL"}, {DAX_ULINT, "ULINT"}}; auto i = n.find(t); if (i != n.end()) return i->second; if (t == TY[P_]) return "Pt"; return "?"; }
static string text_at(const Bytes &b, size_t o, size_t n) { string s; for (size_t i = 0; i < n; i++) if (b[o + i] && b[o + i] != ' ') s += (char)b[o + i]; return s; }
static string squash(const string &s) { string r; for (char c : s) if (c != ' ' && c != '\n' && c) r += c; return r; }
struct Row { int idx; string name, type; uint32_t attr; };
static vector<Row> rows() { vector<Row> v; auto l = srv::tag_get(wire, string("_lastindex")); int last = (int)srv::i32(srv::tread(wire, srv::i32(l.data), 0, 4).data); for (int i = 0; i <= last; i++) { auto r = srv::tag_get(wire, i); if (r.err) continue; uint32_t ty = (uint32_t)srv::i32(r.data, 4), ct = (uint32_t)srv::i32(r.data, 8); v.push_back({srv::i32(r.data), string((char *)r.data.data() + 14), basename_(ty) + (ct > 1 ? sfmt("[%u]", ct) : ""), (uint32_t)(r.data[12] | r.data[13] << 8)}); } return v; }
static void check_rows(const string &w, size_t from, size_t n, bool idx) {
    auto want = rows(); std::istringstream in(O); string l; size_t k = from; for (; std::getline(in, l);) {
        if (l.find("No More") == 0) continue; if (k >= want.size() || k >= from + n) violation("list", "%s: too many lines: %s", w.c_str(), l.c_str()); auto &r = want[k++]; size_t p = l.find("] "); string rest = l; if (idx) { if (l[0] != '[' || p == string::npos || atoi(l.c_str() + 1) != r.idx) violation("list", "%s: line '%s' instead of tag %d %s", w.c_str(), l.c_str(), r.idx, r.name.c_str()); rest = l.substr(p + 1); }
        auto t = toks(rest); if (t.size() < 2 || t[0] != r.name || (r.type[0] != '?' && t[1] != r.type)) violation("list", "%s: line '%s' instead of tag %d %s %s", w.c_str(), l.c_str(), r.idx, r.name.c_str(), r.type.c_str());
        struct { uint32_t a; const char *n; } A[] = {{TAG_ATTR_READONLY, "READONLY"}, {TAG_ATTR_VIRTUAL, "VIRTUAL"}, {TAG_ATTR_RETAIN, "RETAINED"}, {TAG_ATTR_OVR_SET, "OVERRIDE"}}; for (auto &a : A) { bool has = false; for (size_t i = 2; i < t.size(); i++) if (t[i] == a.n) has = true; if (has != ((r.attr & a.a) != 0)) violation("list", "%s: line '%s', but %s is %s", w.c_str(), l.c_str(), a.n, has ? "not set" : "set"); }
    }
    size_t exp = std::min(n, want.size() > from ? want.size() - from : 0); if (k - from != exp) violation("list", "%s: %zu lines instead of %zu", w.c_str(), k - from, exp); S->checks++;
}
static void ok(const string &w) { if (!E.empty()) violation("error", "%s: reports %s", w.c_str(), cut(E).c_str()); for (auto b : {"OPPS", "Error"}) if (O.find(b) != string::npos) violation("error", "%s: reports %s", w.c_str(), cut(O).c_str()); }
static void check(MM &m, const string &w) {               // the server is in the state that the commands so far lead to
    for (int i = 0; i < NT; i++) {
        auto r = srv::tag_get(wire, string(TN[i])); if (m.gone[i]) { if (!r.err) violation("tag", "after %s: tag %s still exists", w.c_str(), TN[i]); continue; } if (r.err || srv::i32(r.data) != id[i]) violation("tag", "after %s: tag %s is gone", w.c_str(), TN[i]);
        bool of = (r.data[12] | r.data[13] << 8) & TAG_ATTR_OVR_SET; if (of != (m.ovt == i && m.ovon)) violation("override", "after %s: the override of %s is %s", w.c_str(), TN[i], of ? "set" : "not set");
        Bytes d = get(id[i], 0, TS[i]), x = m.see(i); if (d != x) violation("value", "after %s: tag %s is %s, expected %s", w.c_str(), TN[i], hx(d).c_str(), hx(x).c_str());
        auto o = srv::ov_get(wire, id[i], 0, TS[i]); bool has = m.ovt == i, have = !o.err; if (has != have) violation("override", "after %s: tag %s %s an override", w.c_str(), TN[i], have ? "has" : "does not have");
    }
    size_t n = 0; for (auto &r : rows()) if (r.name[0] == 'n') n++; if (n != m.add.size()) violation("tag", "after %s: there are %zu added tags instead of %zu", w.c_str(), n, m.add.size());
    for (auto &a : m.add) { auto r = srv::tag_get(wire, a.name); if (r.err || (uint32_t)srv::i32(r.data, 4) != a.type || (uint32_t)srv::i32(r.data, 8) != a.count || ((uint32_t)(r.data[12] | r.data[13] << 8) & TAG_ATTR_RETAIN) != a.attr) violation("tag", "after %s: tag %s is missing or has another type, count or attribute", w.c_str(), a.name.c_str()); }
    S->checks++;
}
static void wrote(MM &m, int i, const Bytes &b) { Bytes old = m.v[i]; m.v[i] = b; for (auto &e : m.ev) if (e.tag == i && old != b) e.pend++; if (i == T_ && m.map && !m.gone[U_]) wrote(m, U_, b); }
static void drop(MM &m, int i) { m.gone[i] = true; if (m.ovt == i) { m.ovt = -1; m.ovon = false; m.ov.clear(); m.om.clear(); } if (i == T_ || i == U_) m.map = false; for (size_t k = 0; k < m.ev.size();) if (m.ev[k].tag == i) m.ev.erase(m.ev.begin() + (long)k); else k++; }
static int pending(const MM &m) { int n = 0; for (auto &e : m.ev) n += e.pend; return n; }
static void got_events(MM &m, const string &w, int max) { ok(w); std::istringstream in(O); string l; int n = 0; while (std::getline(in, l)) { int k; if (sscanf(l.c_str(), "Event %d Received", &k) != 1) violation("event", "%s: prints %s", w.c_str(), l.c_str()); bool f = false; for (auto &e : m.ev) if (e.n == k && e.pend) { e.pend--; f = true; break; } if (!f) violation("event", "%s: event %d is reported, nothing happened to its tag", w.c_str(), k); n++; } if (pending(m) && n < max) violation("event", "%s: %d events are not reported", w.c_str(), pending(m)); }
static void histories(const string &nm, int depth, int set) {
    forked(nm, [=]() {
        mload(); { auto r = srv::cdt_create(wire, "Pt:a,INT,1:b,REAL,1:c,BOOL,3:d,CHAR,4:"); if (r.err) violation("refused", "type: error %d", r.err); TY[P_] = (uint32_t)srv::i32(r.data); }
        MM m; for (int i = 0; i < NT; i++) { m.v[i] = Bytes(TS[i], 0); id[i] = tag(TN[i], TY[i], TC[i], i == RO ? TAG_ATTR_OWNED | TAG_ATTR_READONLY : 0); }
        auto ini = [&](int i, const Bytes &b) { m.v[i] = b; dl::put(id[i], b); }; { Bytes b; for (int v : {1, -2, 300, 70000}) { Bytes x = i4(v); b.insert(b.end(), x.begin(), x.end()); } ini(A_, b); } ini(R_, f4(2.5)); ini(T_, i2(6)); ini(S_, by({'h', 'e', 'l', 'l', 'o', 0, 0, 0})); ini(B_, by({0x55, 0x0A}));
        args = {}; start("", {}); pass(100); take(); need_prompt("start"); m.next = 0;
        MX x; x.name = nm; x.depth = depth; std::map<string, int> sets; auto on = [=](const char *s) { return set == 0 || strchr(s, '0' + set); };
        x.sweep = [](MM &m) { check(m, "the last command"); };
        typedef std::function<void(MM &)> Fn; typedef std::function<bool(const MM &)> En;
        auto good = [&](const char *in, const string &c, int need, Fn eff, En en = nullptr) { if (on(in)) x.add(c, [=](MM &m) { type(c); ok(c); eff(m); check(m, c); }, [=](const MM &m) { return (need < 0 || !m.gone[need]) && (!en || en(m)); }); };
        auto bad = [&](const char *in, const string &c) { if (on(in)) x.add(c, [=](MM &m) { type(c); if (O.empty() && E.empty()) violation("error", "%s: cannot be done, but nothing is printed", c.c_str()); for (auto s : {"Tag Added", "OK"}) if (O.find(s) == 0) violation("error", "%s: cannot be done, but it reports %s", c.c_str(), cut(O).c_str()); check(m, c); }); };
        auto wr = [&](const char *in, const string &c, int i, std::function<void(Bytes &)> f) { good(in, c, i, [=](MM &m) { Bytes b = m.v[i]; f(b); wrote(m, i, b); }); };
        auto bit = [](Bytes &b, int i, int v) { b[(size_t)i / 8] = (uint8_t)((b[(size_t)i / 8] & ~(1 << i % 8)) | v << i % 8); };
        // writing
        wr("1234", "write t 5", T_, [](Bytes &b) { b = i2(5); }); wr("1", "write t -7", T_, [](Bytes &b) { b = i2(-7); }); wr("1", "write t 0x10", T_, [](Bytes &b) { b = i2(16); }); wr("1", "write a 1 2 3 4", A_, [](Bytes &b) { for (size_t i = 0; i < 4; i++) put(b, 4 * i, i4((int)i + 1)); }); wr("1", "write a 5 ~", A_, [](Bytes &b) { put(b, 0, i4(5)); }); wr("1", "write a[1] 6 ~ ~", A_, [](Bytes &b) { put(b, 4, i4(6)); }); wr("1", "write a ~ ~ 4", A_, [](Bytes &b) { put(b, 8, i4(4)); }); wr("1", "write a ~ 7", A_, [](Bytes &b) { put(b, 4, i4(7)); }); wr("1", "write a -9", A_, [](Bytes &b) { put(b, 0, i4(-9)); }); wr("1", "write a[1] -3 9", A_, [](Bytes &b) { put(b, 4, i4(-3)); put(b, 8, i4(9)); });
        wr("1", "write b 1 0 1", B_, [=](Bytes &b) { bit(b, 0, 1); bit(b, 1, 0); bit(b, 2, 1); }); wr("1", "write b ~ ~ 0", B_, [=](Bytes &b) { bit(b, 2, 0); }); wr("1", "write b[9] 1 0 1", B_, [=](Bytes &b) { bit(b, 9, 1); bit(b, 10, 0); bit(b, 11, 1); }); wr("1", "write b[7] 1 ~ 0", B_, [=](Bytes &b) { bit(b, 7, 1); bit(b, 9, 0); }); wr("1", "write r -1.25", R_, [](Bytes &b) { b = f4(-1.25); });
        auto str = [](Bytes &b, size_t o, size_t n, const string &s) { for (size_t i = 0; i < n; i++) b[o + i] = i < s.size() ? (uint8_t)s[i] : 0; };
        wr("1", "write s \"two words\"", S_, [=](Bytes &b) { str(b, 0, 8, "two words"); }); wr("1", "write s \"ab\"", S_, [=](Bytes &b) { str(b, 0, 8, "ab"); }); wr("1", "write s X Y", S_, [](Bytes &b) { b[0] = 'X'; b[1] = 'Y'; });
        wr("1", "write p.a 11", P_, [](Bytes &b) { put(b, 0, i2(11)); }); wr("1", "write p.b 1.5", P_, [](Bytes &b) { put(b, 2, f4(1.5)); }); wr("1", "write p.c 1 0 1", P_, [](Bytes &b) { b[6] = (uint8_t)((b[6] & ~7) | 5); }); wr("1", "write p.c[1] 1", P_, [](Bytes &b) { b[6] |= 2; }); wr("1", "write p.d \"xyz\"", P_, [=](Bytes &b) { str(b, 7, 4, "xyz"); });
        for (auto c : {"write", "write t", "write nosuch 5", "write p.zz 1", "write a[4] 1", "write a 1 2 3 4 5", "write ro 5", "write p 5", "write t \"abc\"", "write s \"\"", "write s \"", "write b[12] 1"}) bad("1", c);
        // reading
        auto rd = [&](const char *in, const string &c, int i, std::function<void(const Bytes &)> f) { good(in, c, i, [=](MM &m) { f(m.see(i)); }); };
        auto nums = [](const string &c, const vector<double> &w) { auto t = toks(O); bool same = t.size() == w.size(); for (size_t i = 0; same && i < w.size(); i++) if (strtod(t[i].c_str(), nullptr) != w[i]) same = false; if (!same) { string s; for (double d : w) s += sfmt(" %g", d); violation("read", "%s: prints %s, the tag is%s", c.c_str(), cut(O).c_str(), s.c_str()); } S->checks++; };
        auto ints = [](const Bytes &b, size_t o, size_t n, size_t sz) { vector<double> v; for (size_t i = 0; i < n; i++) v.push_back((double)num(b, o + i * sz, sz)); return v; }; auto bits = [](const Bytes &b, size_t o, size_t n) { vector<double> v; for (size_t i = o; i < o + n; i++) v.push_back(b[i / 8] >> i % 8 & 1); return v; };
        auto real = [](const Bytes &b, size_t o) { float f; memcpy(&f, &b[o], 4); return vector<double>{f}; };
        rd("134", "read t", T_, [=](const Bytes &b) { nums("read t", ints(b, 0, 1, 2)); }); rd("1", "read a", A_, [=](const Bytes &b) { nums("read a", ints(b, 0, 4, 4)); }); rd("1", "read a 2", A_, [=](const Bytes &b) { nums("read a 2", ints(b, 0, 2, 4)); }); rd("1", "read a[1] 3", A_, [=](const Bytes &b) { nums("read a[1] 3", ints(b, 4, 3, 4)); }); rd("1", "read a[3]", A_, [=](const Bytes &b) { nums("read a[3]", ints(b, 12, 1, 4)); });
        rd("1", "read b", B_, [=](const Bytes &b) { nums("read b", bits(b, 0, 12)); }); rd("1", "read b[5] 6", B_, [=](const Bytes &b) { nums("read b[5] 6", bits(b, 5, 6)); }); rd("1", "read r", R_, [=](const Bytes &b) { nums("read r", real(b, 0)); }); rd("1", "read s", S_, [=](const Bytes &b) { if (squash(O) != text_at(b, 0, 8)) violation("read", "read s: prints %s, the tag is %s", cut(O).c_str(), hx(b).c_str()); });
        rd("1", "read p", P_, [=](const Bytes &b) { std::istringstream in(O); string l; const char *want[] = {"a", "b", "c", "d"}; string body[4]; for (int k = 0; k < 4; k++) { std::getline(in, l); size_t p = l.find_first_not_of(' '); if (p == string::npos || l.compare(p, 2, string(want[k]) + " ")) violation("read", "read p: prints %s", cut(O).c_str()); body[k] = l.substr(p + 2); } if (std::getline(in, l)) violation("read", "read p: more lines"); string full = O; O = body[0]; nums("read p", ints(b, 0, 1, 2)); O = body[1]; nums("read p", real(b, 2)); string w; for (int k = 0; k < 3; k++) w += b[6] >> k & 1 ? "true" : "false"; if (squash(body[2]) != w) violation("read", "read p: c is %s, expected %s", body[2].c_str(), w.c_str()); if (squash(body[3]) != text_at(b, 7, 4)) violation("read", "read p: d is %s", body[3].c_str()); O = full; });
        rd("1", "read p.b", P_, [=](const Bytes &b) { nums("read p.b", real(b, 2)); }); rd("1", "read ro", RO, [=](const Bytes &) { nums("read ro", {0}); });
        for (auto c : {"read", "read nosuch", "read a[4]", "read a 5", "read p.zz", "read a[1] 4"}) bad("1", c);
        // atomic operations
        auto opi = [&](const string &c, std::function<int(int)> f) { wr("2", c, T_, [=](Bytes &b) { b = i2(f((int)num(b, 0, 2))); }); };
        opi("op t inc", [](int v) { return v + 1; }); opi("op t inc 5", [](int v) { return v + 5; }); opi("op t dec", [](int v) { return v - 1; }); opi("op t dec 3", [](int v) { return v - 3; }); opi("op t or 12", [](int v) { return v | 12; }); opi("op t and 6", [](int v) { return v & 6; }); opi("op t xor 5", [](int v) { return v ^ 5; }); opi("op t xnor 5", [](int v) { return ~(v ^ 5); }); opi("op t nor 5", [](int v) { return ~(v | 5); }); opi("op t nand 6", [](int v) { return ~(v & 6); }); opi("op t not", [](int v) { return ~v; });
        wr("2", "op a[2] inc", A_, [](Bytes &b) { put(b, 8, i4((int)num(b, 8, 4) + 1)); }); wr("2", "op a[2] dec", A_, [](Bytes &b) { put(b, 8, i4((int)num(b, 8, 4) - 1)); }); wr("2", "op a or ~ 5", A_, [](Bytes &b) { put(b, 4, i4((int)num(b, 4, 4) | 5)); }); wr("2", "op a xor 1 2", A_, [](Bytes &b) { put(b, 0, i4((int)num(b, 0, 4) ^ 1)); put(b, 4, i4((int)num(b, 4, 4) ^ 2)); }); wr("2", "op a not", A_, [](Bytes &b) { for (auto &c : b) c = (uint8_t)~c; }); wr("2", "op a[1] or ~ ~ 3", A_, [](Bytes &b) { put(b, 12, i4((int)num(b, 12, 4) | 3)); });
        wr("2", "op b[3] not", B_, [](Bytes &b) { b[0] ^= 8; }); wr("2", "op b xor 1 1 0 1", B_, [](Bytes &b) { b[0] ^= 11; }); wr("2", "op r inc 0.5", R_, [](Bytes &b) { float f; memcpy(&f, b.data(), 4); b = f4(f + 0.5f); }); wr("2", "op r dec", R_, [](Bytes &b) { float f; memcpy(&f, b.data(), 4); b = f4(f - 1.0f); }); wr("2", "op s[1] inc", S_, [](Bytes &b) { b[1]++; }); wr("2", "op p.a inc", P_, [](Bytes &b) { put(b, 0, i2((int)num(b, 0, 2) + 1)); });
        for (auto c : {"op", "op t", "op nosuch inc", "op t foo 1", "op t or", "op ro inc", "op ro or 1", "op p inc 1", "op p not", "op b[1] inc", "op a[4] inc", "op a inc", "op a inc 1 2", "op a or 1 2 3 4 5"}) bad("2", c);
        // tags and types
        auto nt = [&](const string &c, const string &n, uint32_t ty, uint32_t ct, uint32_t at) { good("3", c, -1, [=](MM &m) { int k; if (sscanf(O.c_str(), "Tag Added at index %d", &k) != 1) violation("add", "%s: prints %s", c.c_str(), cut(O).c_str()); auto r = srv::tag_get(wire, n); if (r.err || srv::i32(r.data) != k) violation("add", "%s: reports index %d, the tag has %d", c.c_str(), k, r.err ? -1 : srv::i32(r.data)); m.add.push_back({n, ty ? ty : TY[P_], ct, at, k}); }, [=](const MM &m) { for (auto &a : m.add) if (a.name == n) return false; return true; }); };
        nt("add tag n1 INT", "n1", DAX_INT, 1, 0); nt("add tag n2 bool 13 retain", "n2", DAX_BOOL, 13, TAG_ATTR_RETAIN); nt("add tag n3 Pt 2", "n3", 0, 2, 0); nt("add tag n4 DINT retained", "n4", DAX_DINT, 1, TAG_ATTR_RETAIN);
        for (auto c : {"add", "add foo", "add tag", "add tag n9", "add tag n9 FOO", "add tag n9 INT bogus", "add tag n9 INT 2 bogus", "add tag n9 INT -1", "add tag 9n INT", "add tag n9$ INT 1", "add tag ro DINT 1", "add tag n9345678901234567890123456789012345 INT 1", "del", "del foo", "del tag", "del tag nosuch", "del tag 9999", "del tag _lastindex", "del type Pt", "del map 1", "add type", "add type Q", "add type Q a INT", "add type Q a NOSUCH 1", "add type Q a INT 1 b NOSUCH 2", "add type Pt a INT 1", "add type Q a INT 0", "list type nosuch", "list tag nosuch", "list foo", "foo", "dax"}) bad("3", c);
        if (on("3")) x.add("no type Q", [](MM &) { auto r = srv::cdt_get(wire, string("Q")); if (!r.err) violation("type", "a type exists that could not be created"); }); 
        good("3", "del tag t", T_, [](MM &m) { drop(m, T_); }); good("3", "del tag u", U_, [](MM &m) { drop(m, U_); }); if (on("3")) x.add("del tag <index of a>", [](MM &m) { string c = sfmt("del tag %d", id[A_]); type(c); ok(c); drop(m, A_); check(m, c); }, [](const MM &m) { return !m.gone[A_]; });
        if (on("3")) { x.add("del tag <added>", [](MM &m) { string c = "del tag " + m.add[0].name; type(c); ok(c); m.add.erase(m.add.begin()); check(m, c); }, [](const MM &m) { return !m.add.empty(); });
          for (auto c : {"read t", "write t 5", "op t inc", "del tag t", "set t", "list tag t", "add event t 1 change", "add map t 1 u 1"}) x.add(string(c) + " (deleted)", [=](MM &m) { type(c); if (O.empty() && E.empty()) violation("error", "%s: the tag is deleted, but nothing is printed", c); check(m, c); }, [](const MM &m) { return m.gone[T_]; }); }
        good("3", "list", -1, [](MM &m) { check_rows("list", 0, 9999, true); m.next = 0; }); good("3", "list tag", -1, [](MM &m) { check_rows("list tag", 0, 9999, true); m.next = 0; }); good("3", "list tag a", A_, [](MM &) { auto w = rows(); for (size_t i = 0; i < w.size(); i++) if (w[i].name == "a") check_rows("list tag a", i, 1, false); });
        auto page = [&](int from, int n) { string c = from < 0 ? sfmt("list tag %d", n) : sfmt("list tag %d %d", from, n); good("3", c, -1, [=](MM &m) { auto w = rows(); size_t k = 0; int f = from; if (f < 0) { f = m.next; if (f > w.back().idx) f = 0; } while (k < w.size() && w[k].idx < f) k++; check_rows(c, k, (size_t)n, true); size_t e = k + (size_t)n; m.next = e <= w.size() && e > k ? w[e - 1].idx + 1 : f; if (e > w.size()) m.next = w.back().idx + 1; }); };
        page(-1, 3); page(-1, 7); page(-1, 999); page(5, 2); page(id[RO], 1);
        good("3", "list type", -1, [](MM &) { auto t = toks(O); bool f = false; for (auto &s : t) if (s == "Pt") f = true; if (!f) violation("list", "list type: Pt is missing: %s", cut(O).c_str()); }); good("3", "list type Pt", -1, [](MM &) { if (toks(O) != vector<string>{"a", "INT[1]", "b", "REAL[1]", "c", "BOOL[3]", "d", "CHAR[4]"}) violation("list", "list type Pt: prints %s", cut(O).c_str()); });
        if (on("3")) { x.add("add type", [](MM &m) { string n = sfmt("Y%zu", m.add.size()); string c = "add type " + n + " x INT 2 y Pt 3 z BOOL 4"; bool had = !srv::cdt_get(wire, n).err; type(c); if (had) return; ok(c); type("list type " + n); if (toks(O) != vector<string>{"x", "INT[2]", "y", "Pt[3]", "z", "BOOL[4]"}) violation("type", "%s: the type is %s", c.c_str(), cut(O).c_str()); check(m, c); }); }
        for (auto c : {"help", "help add", "help add tag", "help del", "help op", "help exit"}) if (on("3")) x.add(c, [=](MM &m) { type(c); if (O.empty() || !E.empty()) violation("help", "%s: prints nothing", c); check(m, c); });
        for (auto c : {"", "# comment", "#!/usr/bin/daxc"}) if (on("3")) x.add(string("blank ") + c, [=](MM &m) { type(c); if (!O.empty() || !E.empty()) violation("comment", "'%s' prints %s%s", c, cut(O).c_str(), cut(E).c_str()); check(m, c); });
        // mappings, overrides, events
        good("4", "add map t 1 u 1", T_, [](MM &m) { m.map = true; }, [](const MM &m) { return !m.map && !m.gone[U_]; });
        for (auto c : {"add map", "add map t 1 u", "add map t 0 u 1", "add map t 1 u x", "add map nosuch 1 u 1", "add map t 1 nosuch 1", "add map t 1 ro 1", "add map t 2 u 1", "add map u 1 t 2"}) bad("4", c);
        auto ovr = [&](const string &c, int i, std::function<void(Bytes &, Bytes &)> f) { good("4", c, i, [=](MM &m) { if (m.ovt < 0) { m.ovt = i; m.ov = m.om = Bytes(TS[i], 0); } f(m.ov, m.om); }, [=](const MM &m) { return m.ovt < 0 || m.ovt == i; }); };
        auto oset = [](Bytes &o, Bytes &k, size_t off, const Bytes &d) { for (size_t i = 0; i < d.size(); i++) { o[off + i] = d[i]; k[off + i] = 0xFF; } };
        ovr("add override r 77.5", R_, [=](Bytes &o, Bytes &k) { oset(o, k, 0, f4(77.5)); }); ovr("add override a[1] 5 6", A_, [=](Bytes &o, Bytes &k) { oset(o, k, 4, i4(5)); oset(o, k, 8, i4(6)); }); ovr("add override a 8", A_, [=](Bytes &o, Bytes &k) { oset(o, k, 0, i4(8)); }); ovr("add override s \"zz top\"", S_, [=](Bytes &o, Bytes &k) { oset(o, k, 0, by({'z', 'z', ' ', 't', 'o', 'p', 0, 0})); });
        for (int i : {R_, A_, S_}) { string n = TN[i]; auto has = [=](const MM &m) { return m.ovt == i; }; auto hasnt = [=](const MM &m) { return m.ovt != i; }; good("4", "set " + n, i, [](MM &m) { m.ovon = true; }, has); good("4", "clear " + n, i, [](MM &m) { m.ovon = false; }, has); good("4", "del override " + n, i, [](MM &m) { m.ovt = -1; m.ovon = false; m.ov.clear(); m.om.clear(); }, has);
          if (on("4")) x.add("set " + n + " (none)", [=](MM &m) { type("set " + n); if (E.empty()) violation("error", "set %s: there is no override, but nothing is reported", n.c_str()); check(m, "set " + n); }, hasnt); }
        for (auto c : {"set", "set nosuch", "clear", "clear nosuch", "del override", "del override nosuch", "add override", "add override t", "add override nosuch 5", "add override p 5", "add override t \"abc\"", "add override a 1 2 3 4 5"}) bad("4", c);
        rd("4", "read r ", R_, [=](const Bytes &b) { nums("read r", real(b, 0)); }); rd("4", "read a ", A_, [=](const Bytes &b) { nums("read a", ints(b, 0, 4, 4)); }); wr("4", "write r 3", R_, [](Bytes &b) { b = f4(3); }); wr("4", "write a 21 22 23 24", A_, [](Bytes &b) { for (size_t i = 0; i < 4; i++) put(b, 4 * i, i4((int)i + 21)); });
        if (on("5")) {
            for (int i : {T_, A_}) x.add(sfmt("add event %s 1 change", TN[i]), [=](MM &m) { string c = sfmt("add event %s %d change", TN[i], i == A_ ? 4 : 1); type(c); ok(c); int n; if (sscanf(O.c_str(), "OK: Event %d added", &n) != 1) violation("event", "%s: prints %s", c.c_str(), cut(O).c_str()); for (auto &e : m.ev) if (e.n == n) violation("event", "%s: number %d belongs to another event", c.c_str(), n); m.ev.push_back({n, i, 0}); }, [=](const MM &m) { return !m.gone[i] && m.ev.size() < 3; });
            x.add("poll", [](MM &m) { type("poll"); got_events(m, "poll", 999); }); x.add("wait 500", [](MM &m) { bool any = pending(m) > 0; int c = at_prompt(); snprintf(line, 4096, "wait 500"); rt::ext_answer(c, 1); idle(); if (any && at_prompt() < 0) violation("event", "wait 500: an event has happened, but it waits"); if (!any) { int64_t t0 = *rt::now_ms; if (at_prompt() >= 0) violation("event", "wait 500 returns at once"); while (at_prompt() < 0 && *rt::now_ms < t0 + 5000) pass(1); if (*rt::now_ms < t0 + 500) violation("event", "wait 500 returns early"); } take(); need_prompt("wait 500"); got_events(m, "wait 500", 1); });
            x.add("wait, then t changes", [](MM &m) { int c = at_prompt(); snprintf(line, 4096, "wait"); rt::ext_answer(c, 1); idle(); pass(3000); if (at_prompt() >= 0) violation("event", "wait returns although nothing happened"); Bytes b = i2((int)num(m.v[T_], 0, 2) + 1); wrote(m, T_, b); dl::put(id[T_], b); pass(100); take(); need_prompt("wait"); got_events(m, "wait", 1); }, [](const MM &m) { bool t = false; for (auto &e : m.ev) if (e.tag == T_) t = true; return t && !pending(m) && !m.gone[T_]; });
            x.add("t changes", [](MM &m) { Bytes b = i2((int)num(m.v[T_], 0, 2) + 1); wrote(m, T_, b); dl::put(id[T_], b); }, [](const MM &m) { return !m.gone[T_] && pending(m) < 5; }); x.add("a changes", [](MM &m) { Bytes b = m.v[A_]; b[5]++; wrote(m, A_, b); dl::put(id[A_], b); }, [](const MM &m) { return !m.gone[A_] && pending(m) < 5; });
            for (int k : {0, 1}) x.add(k ? "del event <last>" : "del event <first>", [=](MM &m) { type("poll"); got_events(m, "poll", 999); size_t j = k ? m.ev.size() - 1 : 0; string c = sfmt("del event %d", m.ev[j].n); type(c); ok(c); m.ev.erase(m.ev.begin() + (long)j); }, [=](const MM &m) { return m.ev.size() > (size_t)k; });
            for (auto c : {"del event", "del event 0", "del event -1", "del event 9", "del event 64", "del event 65", "del event 66", "del event x", "add event", "add event t", "add event t 1", "add event t 1 foo", "add event nosuch 1 change", "add event t 2 change", "add event a[3] 2 write"}) bad("5", c);
        }
        x.leaf = [](MM &) { if (S->histories.load() & 1) { int c = at_prompt(); snprintf(line, 4096, "exit"); rt::ext_answer(c, 1); } else { int c = at_prompt(); *eof_ = 1; rt::ext_answer(c, 1); } pass(100); if (!*exited) violation("exit", "daxc does not end"); if (*exited != 1) violation("exit", "exit code %d", *exited - 1); };
        x.run(m);
    });
}
static void slots() {
    forked("slots", [=]() {                 // the number of events is limited, deleted ones make place
        mload(); int t = tag("t", DAX_INT, 1); args = {}; start("", {}); pass(100); take(); std::set<int> live; int n;
        auto add = [&]() { type("add event t 1 change"); return sscanf(O.c_str(), "OK: Event %d added", &n) == 1; };
        for (int k = 0; k < 200; k++) { if (!add()) violation("event", "event number %d cannot be added, all others were deleted: %s", k + 1, cut(E).c_str()); type(sfmt("del event %d", n)); ok("del event"); }
        for (int k = 0; k < 64; k++) { if (!add()) { if (k < 32) violation("event", "only %d events can be added", k); break; } if (!live.insert(n).second) violation("event", "number %d is used twice", n); }
        for (int k = 0; k < 3; k++) if (add()) { if (!live.insert(n).second) violation("event", "number %d is used twice", n); } else if (E.empty()) violation("error", "too many events, but nothing is reported");
        int c = 0; for (int k : live) { if (c++ % 2) { type(sfmt("del event %d", k)); ok("del event"); type(sfmt("del event %d", k)); if (E.empty()) violation("error", "event %d is deleted twice without an error", k); } if (c > 8) break; } if (!add()) violation("event", "no event can be added after others were deleted"); dl::put(t, by({1, 0})); type("poll"); if (O.find("Event") != 0) violation("event", "nothing is reported"); S->histories++;
    });
}
// ---- files, -x, -q, -i
static void files() {
    struct L { const char *name; string text; int inc; bool nl; }; vector<L> K; string pad(300, 'x');
    K.push_back({"op", "op c inc 1", 1, true}); K.push_back({"blank", "", 0, true}); K.push_back({"comment", "# op c inc 2", 0, true}); K.push_back({"bad", "foo bar", 0, true}); { string s = "#" + string(254, 'x') + "op c inc 3"; K.push_back({"long comment", s, 0, true}); s = "#" + string(253, 'x') + "op c inc 3"; K.push_back({"long comment 2", s, 0, true}); } { string s = "op big xor"; for (int i = 0; i < 150; i++) s += " 1"; K.push_back({"long command", s, 0, true}); }
    { string s = "write s \"" + string(246, 'y') + "\""; K.push_back({"255 characters", s.substr(0, 255), 0, true}); } K.push_back({"shebang", "#!/usr/bin/daxc -q", 0, true}); K.push_back({"read", "read c", 0, true});
    int depth = thorough() ? 4 : 3;
    forked("files", [=]() {
        mload(); int c = tag("c", DAX_INT, 1), big = tag("big", DAX_INT, 200), s_ = tag("s", DAX_CHAR, 300);
        struct M { uint64_t hash() const { return 0; } } m; Explorer<M> x; x.name = "files"; x.depth = 1; x.dedupe = false; vector<vector<int>> seqs = {{}}; for (size_t a = 0, b = 1, d = 0; (int)d < depth; d++, a = b, b = seqs.size()) for (size_t i = a; i < b; i++) for (int k = 0; k < (int)K.size(); k++) { auto v = seqs[i]; v.push_back(k); seqs.push_back(v); }
        for (auto &q : seqs) for (int mode = 0; mode < 8; mode++) {                                  // bit 0: no newline at the end, bit 1: -x, bit 2: -i (with -q)
            if (mode >= 2 && q.size() > 1) continue; string nm = "file"; string txt; for (size_t i = 0; i < q.size(); i++) { nm += sfmt(", %s", K[(size_t)q[i]].name); txt += K[(size_t)q[i]].text; if (i + 1 < q.size() || !(mode & 1)) txt += "\n"; } nm += mode & 1 ? " (no newline at the end)" : ""; if (mode & 2) nm += " with -x op"; if (mode & 4) nm += " with -i -q";
            x.add(nm, [=](M &) {
                args.clear(); if (mode & 4) { args.push_back("-i"); args.push_back("-q"); } if (mode & 2) { args.push_back("-x"); args.push_back("op c inc 100"); } args.push_back("%D/f.lua"); start("", {{"f", txt}}); pass(200); string o(out, (size_t)*outn), e(err_, (size_t)*errn);
                int want = mode & 2 ? 100 : 0, wb = 0, ws = 0, bads = 0; vector<int> reads; for (int k : q) { want += K[(size_t)k].inc; string n = K[(size_t)k].name; if (n == "long command") wb++; if (n == "255 characters") ws = 1; if (n == "bad") bads++; if (n == "read") reads.push_back(want); }
                int v = (int)num(get(c, 0, 2), 0, 2); if (v != want) violation("file", "the commands of the file add %d to the tag instead of %d", v, want); Bytes b = get(big, 0, 400); for (int i = 0; i < 200; i++) if (num(b, (size_t)i * 2, 2) != (i < 150 ? wb & 1 : 0)) violation("file", "a long command: element %d is %d instead of %d", i, (int)num(b, (size_t)i * 2, 2), i < 150 ? wb & 1 : 0);
                Bytes s = get(s_, 0, 300); for (int i = 0; i < 300; i++) if (s[(size_t)i] != (ws && i < 246 ? 'y' : 0)) violation("file", "a command of 255 characters: character %d is %d", i, s[(size_t)i]);
                int eb = 0; for (size_t p = 0; (p = e.find("Unknown Command - foo", p)) != string::npos; p++) eb++; size_t lines = 0; for (char ch : e) if (ch == '\n') lines++; if (eb != bads || (int)lines != bads) violation("file", "errors reported: %s", e.c_str()); auto t = toks(o); if (t.size() != reads.size()) violation("file", "prints %s instead of %zu values", cut(o).c_str(), reads.size()); for (size_t i = 0; i < t.size(); i++) if (atoi(t[i].c_str()) != reads[i]) violation("file", "prints %s instead of %d", t[i].c_str(), reads[i]);
                take(); if (mode & 4) { need_prompt("the file"); type("read c"); if (toks(O) != vector<string>{sfmt("%d", want)}) violation("file", "read c: %s", cut(O).c_str()); type("add tag n INT"); if (O.empty()) violation("file", "-q is not turned off in interactive mode"); } else if (*exited != 1) violation("exit", "daxc does not end after the file (%d)", *exited); S->checks++;
            });
        }
        x.run(m);
    });
    forked("no-file", [=]() { mload(); (void)tag("c", DAX_INT, 1); args = {"%D/nosuch"}; start("", {}); pass(200); take(); if (E.empty()) violation("error", "a file that does not exist is not reported"); if (!*exited) violation("exit", "daxc does not end"); S->histories++; });
    for (int q = 0; q < 4; q++) forked(sfmt("options-%d", q), [=]() { mload(); int c = tag("c", DAX_INT, 1); args = {}; if (q & 1) args.push_back("-q"); if (q & 2) args.push_back("-i"); args.push_back("-x"); args.push_back("add tag n INT"); start("", {}); pass(200); take(); (void)c; if (srv::tag_get(wire, string("n")).err) violation("file", "-x does not execute its command"); if ((q & 1) != O.empty()) violation("file", "-x prints '%s' %s -q", cut(O).c_str(), q & 1 ? "with" : "without"); if (!E.empty()) violation("error", "-x reports %s", E.c_str()); if (q & 2) need_prompt("-x"); else if (*exited != 1) violation("exit", "daxc does not end after -x"); S->histories++; });
}
static void f() { int d = thorough() ? 4 : 3; histories("values", d, 1); histories("operations", d, 2); histories("tags", d, 3); histories("overrides", d, 4); histories("events", d + 1, 5); histories("all", thorough() ? 3 : 2, 0); slots(); files(); }
static Reg r30("C30", f, "every sequence up to the depth of commands (writes, reads, atomic operations, tags, types, mappings, overrides, events, lists, and their failing variants), every file of up to 3 lines (thorough 4) of ten kinds with and without a newline at its end, with -x, -q and -i");
}
