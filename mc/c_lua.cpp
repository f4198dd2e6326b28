// C25: values written from Lua scripts come back equal, nothing else changes, badly shaped values are refused.
// The real Lua binding, client library and server; every script is run by the real Lua interpreter.
#include "cscn.h"
#include <math.h>
#include <float.h>
namespace {
struct lua_State;
#define LUA_FNS X(luaL_newstate, lua_State *, (void)) X(luaL_openlibs, void, (lua_State *)) X(luaL_requiref, void, (lua_State *, const char *, int (*)(lua_State *), int)) X(luaL_loadstring, int, (lua_State *, const char *)) X(lua_pcallk, int, (lua_State *, int, int, int, intptr_t, void *)) X(lua_tolstring, const char *, (lua_State *, int, size_t *)) X(lua_settop, void, (lua_State *, int)) X(lua_gettop, int, (lua_State *)) X(luaopen_dax, int, (lua_State *)) X(daxlua_set_state, int, (lua_State *, dax_state *))
#define X(n, r, a) r(*n) a;
LUA_FNS
#undef X
dax_state *ds; int wire; lua_State *L; World W;
// ---- values
struct V { char k = 'n'; int64_t i = 0; double d = 0; string s; std::map<int, V> a; std::map<string, V> f; };   // n nil, b boolean, i integer, d float, s string, t table
V nil() { return V(); } V B(bool x) { V v; v.k = 'b'; v.i = x; return v; } V I(int64_t x) { V v; v.k = 'i'; v.i = x; return v; } V F(double x) { V v; v.k = 'd'; v.d = x; return v; } V Str(const string &x) { V v; v.k = 's'; v.s = x; return v; }
V A(std::vector<V> x) { V v; v.k = 't'; int n = 1; for (auto &e : x) { if (e.k != 'n') v.a[n] = e; n++; } return v; } V R(std::vector<std::pair<string, V>> x) { V v; v.k = 't'; for (auto &e : x) v.f[e.first] = e.second; return v; }
string lit(const V &v) { switch (v.k) { case 'n': return "nil"; case 'b': return v.i ? "true" : "false"; case 'i': return v.i == INT64_MIN ? "math.mininteger" : sfmt("%ld", (long)v.i); case 'd': return v.d != v.d ? "(0/0)" : v.d == INFINITY ? "(1/0)" : v.d == -INFINITY ? "(-1/0)" : sfmt("(%a)", v.d); case 's': { string r = "\""; for (unsigned char c : v.s) r += sfmt("\\x%02x", c); return r + "\""; } }
    string r = "{"; for (auto &e : v.a) r += sfmt("[%d]=", e.first) + lit(e.second) + ","; for (auto &e : v.f) r += e.first + "=" + lit(e.second) + ","; return r + "}"; }
string shortlit(const V &v) { string s = lit(v); return s.size() > 90 ? s.substr(0, 90) + "..." : s; }
// ---- encoding in the tag
struct Enc { Bytes d; int refuse = 0, maybe = 0; std::vector<std::pair<uint64_t, uint64_t>> any; };   // any: bit ranges whose new value is not specified
bool isreal(uint32_t t) { return t == DAX_REAL || t == DAX_LREAL; }
bool range(uint32_t t, int64_t v) { switch (t) { case DAX_BYTE: return v >= 0 && v <= 255; case DAX_SINT: case DAX_CHAR: return v >= -128 && v <= 127; case DAX_WORD: case DAX_UINT: return v >= 0 && v <= 65535; case DAX_INT: return v >= -32768 && v <= 32767; case DAX_DWORD: case DAX_UDINT: return v >= 0 && v <= 0xffffffffll; case DAX_DINT: return v >= INT32_MIN && v <= INT32_MAX; } return true; }
void scalar(Enc &e, uint32_t t, uint64_t bit, const V &v) {
    uint64_t n = t == DAX_BOOL ? 1 : TYPESIZE(t);
    if (t == DAX_BOOL) { if (v.k != 'b') { e.any.push_back({bit, 1}); return; } if (v.i) e.d[bit / 8] |= (uint8_t)(1 << bit % 8); else e.d[bit / 8] &= (uint8_t)~(1 << bit % 8); return; }
    uint8_t *p = &e.d[bit / 8]; int64_t x = v.i;
    if (isreal(t)) { if (v.k != 'i' && v.k != 'd') { e.any.push_back({bit, n}); return; } double q = v.k == 'i' ? (double)v.i : v.d; if (q != q) { e.any.push_back({bit, n}); return; } if (t == DAX_REAL) { if (fabs(q) > FLT_MAX && !std::isinf(q)) { e.any.push_back({bit, n}); return; } float f = (float)q; memcpy(p, &f, 4); } else memcpy(p, &q, 8); return; }
    if (v.k == 'd') { if (!(v.d >= -9223372036854775808.0 && v.d < 9223372036854775808.0) || v.d != floor(v.d)) { e.any.push_back({bit, n}); return; } x = (int64_t)v.d; } else if (v.k != 'i') { e.any.push_back({bit, n}); return; }
    if (!range(t, x)) { e.any.push_back({bit, n}); return; }
    memcpy(p, &x, n / 8);
}
void enc(Enc &e, uint32_t t, uint32_t c, uint64_t bit, const V &v);
void encs(Enc &e, uint32_t t, uint64_t bit, const V &v) {           // one structure
    if (v.k != 't') { e.refuse = 1; return; }
    uint64_t p = 0; for (auto &m : W.T.at(t).m) { p = World::mpos(p, m.t); auto i = v.f.find(m.n); if (i != v.f.end() && i->second.k != 'n') enc(e, m.t, m.c, bit + p, i->second); p += W.mbits(m); }
}
void enc(Enc &e, uint32_t t, uint32_t c, uint64_t bit, const V &v) {
    if (t & DAX_CUSTOM) { if (c == 1) { if (v.k == 'n') e.maybe = 1; else encs(e, t, bit, v); return; } if (v.k != 't') { e.refuse = 1; return; } for (uint32_t i = 0; i < c; i++) { auto x = v.a.find((int)i + 1); if (x != v.a.end()) encs(e, t, bit + i * W.size(t) * 8, x->second); } return; }
    uint64_t n = t == DAX_BOOL ? 1 : TYPESIZE(t);
    if (c == 1) { scalar(e, t, bit, v); return; }
    if (v.k == 's') { if (t == DAX_CHAR && v.s.size() <= c && v.s.find('\0') == string::npos) { for (uint32_t i = 0; i < c; i++) e.d[bit / 8 + i] = i < v.s.size() ? (uint8_t)v.s[i] : 0; } else { e.any.push_back({bit, n * c}); e.maybe = 1; } return; }
    if (v.k != 't') { e.refuse = 1; return; }
    for (uint32_t i = 0; i < c; i++) { auto x = v.a.find((int)i + 1); if (x != v.a.end()) scalar(e, t, bit + i * n, x->second); }
}
// ---- what Lua has to see
string num(double d) { if (d != d) return "nan"; if (d >= -9223372036854775808.0 && d < 9223372036854775808.0 && d == floor(d)) return sfmt("i%ld", (long)d); return d == INFINITY ? "finf" : d == -INFINITY ? "f-inf" : sfmt("f%a", d); }
string dec1(const Bytes &d, uint32_t t, uint64_t bit) { if (t == DAX_BOOL) return d[bit / 8] >> bit % 8 & 1 ? "btrue" : "bfalse"; const uint8_t *p = &d[bit / 8]; if (t == DAX_REAL) { float f; memcpy(&f, p, 4); return num(f); } if (t == DAX_LREAL) { double f; memcpy(&f, p, 8); return num(f); }
    int64_t x = 0; size_t n = TYPESIZE(t) / 8; memcpy(&x, p, n); bool sg = t == DAX_SINT || t == DAX_CHAR || t == DAX_INT || t == DAX_DINT; if (sg && n < 8 && (x >> (n * 8 - 1) & 1)) x -= 1ll << (n * 8); return sfmt("i%ld", (long)x); }
string dec(const Bytes &d, uint32_t t, uint32_t c, uint64_t bit) {
    if (t & DAX_CUSTOM) { if (c > 1) { string r = "{"; for (uint32_t i = 0; i < c; i++) r += sfmt("%u=", i + 1) + dec(d, t, 1, bit + i * W.size(t) * 8) + ","; return r + "}"; }
        std::map<string, string> o; uint64_t p = 0; for (auto &m : W.T.at(t).m) { p = World::mpos(p, m.t); o[m.n] = dec(d, m.t, m.c, bit + p); p += W.mbits(m); } string r = "{"; for (auto &x : o) r += x.first + "=" + x.second + ","; return r + "}"; }
    if (c == 1) return dec1(d, t, bit);
    if (t == DAX_CHAR) { string r = "s"; for (uint32_t i = 0; i < c; i++) { uint8_t x = d[bit / 8 + i]; if (!x) break; r += sfmt("%02x", x); } return r; }
    uint64_t n = t == DAX_BOOL ? 1 : TYPESIZE(t); string r = "{"; for (uint32_t i = 0; i < c; i++) r += sfmt("%u=", i + 1) + dec1(d, t, bit + i * n) + ","; return r + "}";
}
const char *PRE = "function D(v) if type(v)=='number' then if v~=v then return 'nan' end local n=math.tointeger(v) if n then return 'i'..string.format('%d',n) end if v==1/0 then return 'finf' elseif v==-1/0 then return 'f-inf' end return 'f'..string.format('%a',v) elseif type(v)=='boolean' then return 'b'..tostring(v) elseif type(v)=='string' then return 's'..(v:gsub('.', function(c) return string.format('%02x',c:byte()) end)) elseif type(v)=='table' then local k={} for x in pairs(v) do k[#k+1]=x end table.sort(k, function(a,b) if type(a)==type(b) then return a<b end return type(a)=='number' end) local r='{' for _,x in ipairs(k) do r=r..tostring(x)..'='..D(v[x])..',' end return r..'}' end return type(v) end";
struct Res { int err = 0; string out; };
Res lua(const string &code) { Res r; cli::call(1, [&]() { bool o = rt::in_target; rt::in_target = true; char *c = strdup(code.c_str()); int top = lua_gettop(L); r.err = luaL_loadstring(L, c); if (!r.err) r.err = lua_pcallk(L, 0, 1, 0, 0, nullptr); size_t n = 0; const char *s = lua_tolstring(L, -1, &n); r.out = s ? string(s, n) : string("(no text)"); lua_settop(L, top); rt::in_target = o; free(c); }); return r; }
// ---- tags and targets
struct Tg { string tag, expr; uint32_t t, c; uint64_t bit; };
struct LM { std::map<string, Bytes> d; uint64_t hash() const { uint64_t h = 5; for (auto &x : d) for (uint8_t c : x.second) h = h * 1099511628211ull + c; return h; } };
std::map<string, int> idx; std::map<string, std::vector<Tg>> reads; LM M0;
Tg el(const Tg &g, uint32_t i, uint32_t n = 1) { Tg r = g; r.expr += sfmt("[%u]", i); r.c = n; r.bit += i * (g.t == DAX_BOOL ? 1 : W.size(g.t) * 8); return r; }
Tg mb(const Tg &g, const string &n) { Tg r = g; r.expr += "." + n; uint64_t p = 0; for (auto &m : W.T.at(g.t).m) { p = World::mpos(p, m.t); if (m.n == n) { r.t = m.t; r.c = m.c; r.bit += p; return r; } p += W.mbits(m); } abort(); }
Tg mk(const string &n, uint32_t t, uint32_t c) { auto r = srv::tag_add(wire, n, t, c); if (r.err) violation("refused", "adding %s: %d", n.c_str(), r.err); idx[n] = srv::i32(r.data); uint64_t bits = t == DAX_BOOL ? c : W.size(t) * 8 * c; M0.d[n] = Bytes((bits + 7) / 8); Tg g = {n, n, t, c, 0}; reads[n].push_back(g); return g; }
void sweep(LM &m) { for (auto &x : m.d) { S->checks++; auto r = srv::tread(wire, idx[x.first], 0, (uint32_t)x.second.size()); if (r.err) violation("missing", "tag %s cannot be read (%d)", x.first.c_str(), r.err); if (r.data != x.second) violation("data", "tag %s is %s, expected %s", x.first.c_str(), srv::hex(r.data).c_str(), srv::hex(x.second).c_str()); } }
void look(LM &m, const string &tag) { for (auto &g : reads[tag]) { S->checks++; Res r = lua("return D(tag_read(\"" + g.expr + "\"" + (g.c > 1 && g.expr.back() == ']' ? sfmt(",%u", g.c) : string()) + "))"); string w = dec(m.d[tag], g.t, g.c, g.bit); if (r.err) violation("read", "reading %s fails: %s", g.expr.c_str(), r.out.c_str()); if (r.out != w) violation("read", "Lua reads %s as %s, expected %s (tag data %s)", g.expr.c_str(), r.out.c_str(), w.c_str(), srv::hex(m.d[tag]).c_str()); outcome(std::hash<string>()(g.expr + r.out)); } }
typedef Explorer<LM> X;
void wr(X &x, const Tg &g, const V &v, bool handle = false) {
    string code = handle ? "tag_write(tag_handle(\"" + g.expr + "\"" + sfmt(",%u", g.c) + ")," + lit(v) + ")" : "tag_write(\"" + g.expr + "\"," + lit(v) + ")";
    x.add(string(handle ? "handle " : "") + sfmt("%s[%u] = ", g.expr.c_str(), g.c) + shortlit(v), [=](LM &m) {
        Enc e; e.d = m.d[g.tag]; enc(e, g.t, g.c, g.bit, v); Res r = lua(code); S->checks++;
        if (e.refuse) { if (!r.err) violation("accepted", "%s is accepted", code.c_str()); }
        else if (r.err && e.any.empty() && !e.maybe) violation("refused", "%s is refused: %s", code.c_str(), r.out.c_str());
        if (!r.err) { if (e.any.size()) { auto q = srv::tread(wire, idx[g.tag], 0, (uint32_t)e.d.size()); if (q.data.size() != e.d.size()) violation("missing", "tag %s cannot be read", g.tag.c_str()); for (auto &a : e.any) for (uint64_t k = a.first; k < a.first + a.second; k++) { uint8_t bm = (uint8_t)(1 << k % 8); e.d[k / 8] = (uint8_t)((e.d[k / 8] & ~bm) | (q.data[k / 8] & bm)); } } m.d[g.tag] = e.d; }
        look(m, g.tag); });
}
std::vector<V> base(uint32_t t) { if (t == DAX_BOOL) return {B(true), B(false)}; if (isreal(t)) { std::vector<V> v = {F(0.0), F(1.5), F(-0.1), F(1e38), F(-3e-40), I(16777217), I(-7), F(INFINITY), F(NAN)}; if (t == DAX_LREAL) { v.push_back(F(1e308)); v.push_back(I(9007199254740993ll)); v.push_back(F(-5e-324)); } return v; }
    std::vector<V> v; for (int64_t c : {0ll, 1ll, -1ll, 42ll, 127ll, 128ll, 200ll, 255ll, -128ll, 32767ll, 32768ll, -32768ll, 65535ll, 2147483647ll, 2147483648ll, -2147483648ll, 4294967295ll, 4294967296ll, 9007199254740993ll, -9007199254740993ll, (long long)INT64_MAX, (long long)INT64_MIN}) if (range(t, c)) v.push_back(I(c)); v.push_back(F(5.0)); return v; }
std::vector<V> odd(uint32_t t) { std::vector<V> v = {nil(), Str("5"), Str("abc"), A({I(1)}), R({{"x", I(1)}})}; if (t == DAX_BOOL) v.push_back(I(0)); else { v.push_back(B(true)); if (!isreal(t)) { v.push_back(F(2.75)); v.push_back(F(1e300)); v.push_back(F(-1e19)); v.push_back(F(NAN)); v.push_back(I(65536 + 5)); v.push_back(I(-70000)); v.push_back(I(INT64_MAX)); } else v.push_back(F(1e300)); } return v; }
void boot() { srv::load(); cli::load(); srv::boot(); wire = srv::connect(); srv::reg(wire, "wire"); ds = cli::open(1, "lua");
#define X(n, r, a) n = (decltype(n))rt::sym(cli::lib, #n);
    LUA_FNS
#undef X
    cli::call(1, [&]() { bool o = rt::in_target; rt::in_target = true; L = luaL_newstate(); luaL_openlibs(L); daxlua_set_state(L, ds); rt::in_target = o; });
    ((void (*)(lua_State *))rt::sym(cli::lib, "daxlua_set_constants")); cli::call(1, [&]() { bool o = rt::in_target; rt::in_target = true; luaL_requiref(L, "dax", luaopen_dax, 1); lua_settop(L, 0); rt::in_target = o; });
    Res r = lua(string(PRE) + " for k,v in pairs(dax) do if k ~= 'sleep' and k ~= 'log' and k ~= 'free' and k ~= 'init' then _G[k]=v end end"); if (r.err) { fprintf(stderr, "lua: %s\n", r.out.c_str()); _exit(90); } idx.clear(); reads.clear(); M0 = LM(); W = World(); }
uint32_t type(const string &n, std::vector<Mem> m) { Typ y; y.n = n; y.m = m; auto r = srv::cdt_create(wire, W.def(y)); if (r.err) violation("refused", "creating type %s: %d", n.c_str(), r.err); y.id = (uint32_t)srv::i32(r.data); W.T[y.id] = y; return y.id; }
const uint32_t ALL[] = {DAX_BOOL, DAX_BYTE, DAX_SINT, DAX_CHAR, DAX_WORD, DAX_INT, DAX_UINT, DAX_DWORD, DAX_DINT, DAX_UDINT, DAX_REAL, DAX_LWORD, DAX_LINT, DAX_ULINT, DAX_LREAL, DAX_TIME};
void scalars() { for (uint32_t t : ALL) { string nm = "scalar and array of " + World().tname(t); run_forked(nm.c_str(), [=]() { boot(); X x; x.name = nm; x.depth = 2; x.sweep = sweep;
    uint32_t n = t == DAX_BOOL ? 11 : t == DAX_CHAR ? 6 : 3; mk("before", DAX_LINT, 1); Tg s = mk("s", t, 1), a = mk("a", t, n); mk("after", DAX_LINT, 1); Tg l = el(a, n - 1), f = el(a, 0), two = el(a, 1, 2); reads["a"].push_back(l); reads["a"].push_back(f); reads["a"].push_back(el(a, 1)); reads["a"].push_back(two);
    auto bs = base(t); for (auto &v : bs) { wr(x, s, v); wr(x, l, v); } wr(x, s, bs[1], true); wr(x, f, bs[0]); for (auto &v : odd(t)) { wr(x, s, v); wr(x, el(a, 1), v); wr(x, a, A({bs[0], v, bs[1]})); if (v.k != 't') wr(x, a, v); }
    for (size_t i = 0; i + 2 < bs.size() || i == 0; i += 3) { std::vector<V> q; for (uint32_t k = 0; k < n; k++) q.push_back(bs[(i + k) % bs.size()]); wr(x, a, A(q)); wr(x, a, A(q), true); q.push_back(bs[0]); wr(x, a, A(q)); }
    wr(x, a, A({})); wr(x, a, A({nil(), bs[1]})); wr(x, a, A({bs[1], nil(), bs[0]})); wr(x, a, R({{"x", bs[1]}})); wr(x, two, A({bs[1], bs[0]}), true); wr(x, two, A({nil(), bs[1]}), true); wr(x, two, bs[1], true);
    if (t == DAX_BOOL) { std::vector<V> q; for (uint32_t k = 0; k < n; k++) q.push_back(B(k % 3 != 1)); wr(x, a, A(q)); wr(x, el(a, 3, 7), A({B(true), B(true), B(false), B(true), B(true), B(true), B(true)}), true); wr(x, el(a, 7, 2), A({B(true), B(true)}), true); reads["a"].push_back(el(a, 7, 2)); reads["a"].push_back(el(a, 3, 7)); wr(x, a, Str("a string longer than the tag")); }
    if (t == DAX_CHAR) for (auto q : {"", "a", "abcde", "abcdef", "\xff\x80 x", "abcdefghij"}) { wr(x, a, Str(q)); wr(x, a, Str(q), true); } 
    x.add("delete a tag that does not exist", [](LM &m) { Res r = lua("tag_del(\"nosuch\")"); if (!r.err) violation("accepted", "deleting a tag that does not exist is accepted"); });
    x.run(M0); }); } }
void structs() { for (int part = 0; part < 3; part++) { string nm = sfmt("structures %d", part); run_forked(nm.c_str(), [=]() { boot(); X x; x.name = nm; x.depth = thorough() ? 3 : 2; x.sweep = sweep;
    uint32_t in = type("In", {{"x", DAX_INT, 1}, {"y", DAX_REAL, 1}, {"f", DAX_BOOL, 3}, {"g", DAX_BOOL, 1}, {"s", DAX_CHAR, 4}, {"u", DAX_ULINT, 1}, {"v", DAX_BYTE, 2}}); uint32_t out = type("Out", {{"p", DAX_BYTE, 1}, {"w", in, 1}, {"arr", in, 2}, {"b", DAX_BOOL, 1}, {"t", DAX_TIME, 2}});
    mk("before", DAX_LINT, 1); Tg g = part == 0 ? mk("c", in, 1) : part == 1 ? mk("c", out, 1) : mk("c", out, 2); mk("after", DAX_LINT, 1);
    V i1 = R({{"x", I(-5)}, {"y", F(2.5)}, {"f", A({B(true), B(false), B(true)})}, {"g", B(true)}, {"s", Str("abcd")}, {"u", I(9007199254740993ll)}, {"v", A({I(1), I(255)})}}), i2 = R({{"y", F(-0.25)}}), i3 = R({{"f", A({nil(), B(true)})}, {"s", Str("z")}}), i4 = R({{"nosuch", I(1)}}), i5 = R({{"g", B(true)}, {"v", A({nil(), I(7)})}}), ib1 = R({{"f", I(1)}, {"x", I(9)}}), ib2 = R({{"x", I(3)}, {"v", B(true)}, {"y", F(1)}, {"u", I(4)}}), io = R({{"x", Str("q")}, {"s", Str("muchtoolong")}, {"f", Str("string")}, {"u", A({})}});
    std::vector<V> ins = {i1, i2, i3, i4, i5, ib1, ib2, io, R({}), I(5), B(false), Str("text"), A({I(1), I(2)})};
    auto members = [&](const Tg &q) { for (auto n : {"x", "y", "f", "g", "s", "u", "v"}) reads["c"].push_back(mb(q, n)); reads["c"].push_back(el(mb(q, "f"), 2)); reads["c"].push_back(el(mb(q, "v"), 1)); wr(x, mb(q, "g"), B(true)); wr(x, mb(q, "f"), A({B(false), B(true), B(true)})); wr(x, el(mb(q, "f"), 2), B(true)); wr(x, mb(q, "s"), Str("xy")); wr(x, mb(q, "u"), I(INT64_MAX)); wr(x, mb(q, "y"), F(0.1)); wr(x, el(mb(q, "v"), 1), I(77)); wr(x, mb(q, "f"), I(3)); };
    if (part == 0) { for (auto &v : ins) { wr(x, g, v); wr(x, g, v, true); } wr(x, g, nil()); members(g); }
    else { Tg o = part == 1 ? g : el(g, 1); V o1 = R({{"p", I(200)}, {"w", i1}, {"arr", A({i2, i1})}, {"b", B(true)}, {"t", A({I(INT64_MAX), I(-1)})}}), o2 = R({{"arr", A({nil(), i3})}, {"b", B(false)}}), o3 = R({{"w", i5}, {"t", A({nil(), I(4294967297ll)})}}); std::vector<V> outs = {o1, o2, o3, R({}), R({{"w", I(4)}, {"b", B(true)}, {"p", I(1)}}), R({{"arr", I(4)}, {"b", B(true)}}), R({{"arr", A({I(4), i1})}, {"p", I(3)}}), R({{"arr", A({i1, B(true)})}, {"b", B(true)}, {"t", A({I(1), I(2)})}}), R({{"w", ib1}, {"p", I(9)}, {"b", B(true)}}), R({{"arr", A({i2, ib2})}, {"b", B(true)}}), R({{"t", I(1)}, {"p", I(1)}}), R({{"p", A({})}, {"b", I(0)}}), I(1), Str("s"), B(true)};
        if (part == 1) for (auto &v : outs) wr(x, g, v); else { for (auto &v : outs) { wr(x, g, A({nil(), v})); wr(x, g, A({v, o1})); wr(x, o, v); } wr(x, g, I(3)); wr(x, g, nil()); wr(x, g, Str("abc")); wr(x, g, A({o1, o1}), true); }
        reads["c"].push_back(mb(o, "w")); reads["c"].push_back(mb(o, "arr")); reads["c"].push_back(el(mb(o, "arr"), 1)); reads["c"].push_back(mb(o, "t")); reads["c"].push_back(mb(o, "b")); if (part == 2) { reads["c"].push_back(o); reads["c"].push_back(el(g, 0)); }
        for (auto &v : ins) { wr(x, mb(o, "w"), v); wr(x, el(mb(o, "arr"), 1), v); } wr(x, mb(o, "arr"), A({i1, i1})); wr(x, mb(o, "arr"), i1); wr(x, mb(o, "t"), A({I(1), I(-9007199254740993ll)})); wr(x, mb(o, "b"), B(true)); members(el(mb(o, "arr"), 1)); }
    x.run(M0); }); } }
void c25() { scalars(); structs(); }
Reg r25("C25", c25, "every data type with every boundary value as scalar, array, array element and part of an array, by name and by handle; structures, nested structures and arrays of them written whole, partly, by member and with wrong shapes at every level; all sequences up to the depth bound; after each write all tags are compared with the reference through the wire and everything in the tag is read back from Lua");
// ---- C32: every other operation of the Lua library, against the same operation sent directly to the server for a twin tag
const char *TY = "t", *TW = "w";                                 // the script's tag, the twin
srv::H hof(const Tg &g, const string &tag) { uint64_t n = g.t == DAX_BOOL ? g.c : W.size(g.t) * 8 * g.c; bool b = g.t == DAX_BOOL; return {idx[tag], (uint32_t)(g.bit / 8), (uint8_t)(b ? g.bit % 8 : 0), g.c, (uint32_t)(n + (b ? g.bit % 8 : 0) + 7) / 8, g.t}; }
struct OM { int ev = 0, map = 0; uint64_t n = 0; uint64_t hash() const { return (uint64_t)ev * 31 + (uint64_t)map + n * 1009; } };
typedef Explorer<OM> O;
uint64_t tagbytes = 0;
void same(OM &) {                                                // the tags, what lies below their overrides, and their surroundings
    auto a = srv::tread(wire, idx[TY], 0, (uint32_t)tagbytes), b = srv::tread(wire, idx[TW], 0, (uint32_t)tagbytes); S->checks++; if (a.err != b.err || a.data != b.data) violation("data", "the tag is %s, the same operation sent to the server gives %s", srv::hex(a.data).c_str(), srv::hex(b.data).c_str());
    auto c = srv::ov_get(wire, idx[TY], 0, (uint32_t)tagbytes), d = srv::ov_get(wire, idx[TW], 0, (uint32_t)tagbytes); if (c.err != d.err || c.data != d.data) violation("override", "the override is %s, the same operation sent to the server gives %s", srv::hex(c.data).c_str(), srv::hex(d.data).c_str());
    for (auto n : {"before", "after"}) { auto r = srv::tread(wire, idx[n], 0, 8); if (r.data != M0.d[n]) violation("data", "a neighbouring tag is changed"); }
}
string target(const Tg &g, bool handle) { return handle ? "tag_handle(\"" + g.expr + "\"" + sfmt(",%u", g.expr.back() == ']' ? g.c : 0) + ")" : "\"" + g.expr + "\""; }
void both(const string &what, const Res &r, const srv::Reply &w) { S->checks++; outcome((uint64_t)(r.err != 0) * 1000 + (uint64_t)(w.err & 0xff)); if ((r.err != 0) != (w.err != 0)) violation(r.err ? "refused" : "accepted", "%s %s (%s), the same operation sent to the server gives error %d", what.c_str(), r.err ? "fails" : "succeeds", r.out.c_str(), w.err); }
bool whole(const Tg &g, const V &v, Bytes &d) { Enc e; e.d = Bytes(tagbytes, 0); enc(e, g.t, g.c, g.bit, v); if (e.refuse || e.maybe || e.any.size()) return false; if (g.c > 1 && v.k == 't' && v.a.size() < g.c) return false; d = e.d; return true; }
Bytes part(const Tg &g, const Bytes &w) { uint64_t n = g.t == DAX_BOOL ? g.c : W.size(g.t) * 8 * g.c; Bytes d((n + g.bit % 8 + 7) / 8, 0); for (uint64_t i = 0; i < n; i++) if (w[(g.bit + i) / 8] >> (g.bit + i) % 8 & 1) d[i / 8] |= (uint8_t)(1 << i % 8); return d; }
Bytes maskof(const Tg &g) { uint64_t n = g.t == DAX_BOOL ? g.c : W.size(g.t) * 8 * g.c; Bytes m(tagbytes, 0); for (uint64_t i = g.bit; i < g.bit + n; i++) m[i / 8] |= (uint8_t)(1 << i % 8); return m; }
std::vector<V> few(uint32_t t) { if (t == DAX_BOOL) return {B(true), B(false)}; if (isreal(t)) return {F(0.0), F(1.5), F(-2.25), F(1e30), I(7)}; std::vector<V> r; for (auto &v : base(t)) { Enc e; e.d = Bytes(8, 0); enc(e, t, 1, 0, v); if (e.any.empty() && !e.refuse) r.push_back(v); } return r; }
std::vector<V> values(const Tg &g) { auto f = few(g.t); if (g.c == 1) return f; std::vector<V> r; for (size_t k = 0; k < f.size(); k += f.size() > 4 ? 2 : 1) { std::vector<V> q; for (uint32_t i = 0; i < g.c; i++) q.push_back(f[(k * 3 + i * (k + 1)) % f.size()]); r.push_back(A(q)); } if (g.t == DAX_CHAR && g.c == 6) r.push_back(Str("abcdef")); return r; }
std::vector<Tg> targets(uint32_t t, uint32_t n) { Tg a = {TY, TY, t, n, 0}; if (n == 1) return {a}; std::vector<Tg> v = {a, el(a, 0), el(a, n - 1), el(a, 1, 2)}; if (t == DAX_BOOL) { v.push_back(el(a, 7, 3)); v.push_back(el(a, 3, 8)); v.push_back(el(a, 5, 11)); } return v; }
void tags(uint32_t t, uint32_t n) { mk("before", DAX_LINT, 1); mk(TY, t, n); mk("between", DAX_LINT, 1); mk(TW, t, n); mk("after", DAX_LINT, 1); tagbytes = M0.d[TY].size(); Bytes p(tagbytes); for (size_t i = 0; i < p.size(); i++) p[i] = (uint8_t)(0x35 + 0x4b * i); if (t == DAX_BOOL && n % 8) p.back() &= (uint8_t)((1 << n % 8) - 1); if (isreal(t)) p.assign(p.size(), 0); srv::twrite(wire, idx[TY], 0, p); srv::twrite(wire, idx[TW], 0, p); for (auto s : {"before", "after"}) { M0.d[s] = Bytes(8, 0xa5); srv::twrite(wire, idx[s], 0, M0.d[s]); } }
template <class F> void types(const char *what, int depth, F f) { for (uint32_t t : ALL) for (int arr = 0; arr < 2; arr++) { string nm = sfmt("%s %s%s", what, arr ? "array of " : "", World().tname(t).c_str()); if (const char *q = getenv("MC_ONLY")) if (*q && nm.find(q) != 0) continue; run_forked(nm.c_str(), [=]() { boot(); uint32_t n = !arr ? 1 : t == DAX_BOOL ? 19 : t == DAX_CHAR ? 6 : 3; tags(t, n); O x; x.name = nm; x.depth = depth; x.sweep = same; f(x, t, n); OM o; x.run(o); }); } }
void atomics() { static const char *ops[] = {"INC", "DEC", "NOT", "OR", "AND", "NOR", "NAND", "XOR", "XNOR"};
    types("atomic operations on", thorough() ? 2 : 1, [](O &x, uint32_t t, uint32_t n) { for (auto &g : targets(t, n)) for (int h = g.c > 1 && g.expr.back() == ']'; h < 2; h++) for (int op = 1; op <= 9; op++) { auto vs = values(g); if (op == 3) vs.resize(1); for (auto &v : vs) { Bytes d; if (!whole(g, v, d)) continue; string code = "atomic_op(" + target(g, h) + "," + lit(v) + ",ATOMIC_OP_" + ops[op - 1] + ")"; Bytes p = part(g, d); x.add(code, [=](OM &) { both(code, lua(code), srv::atomic(wire, hof(g, TW), op, p)); }); } }
        for (auto op : {"0", "10", "65535"}) { string code = "atomic_op(\"" + string(TY) + "\",nil," + op + ")"; Tg g = {TY, TY, t, 1, 0}; if (n == 1 && t != DAX_BOOL) x.add(code, [=](OM &) { Res r = lua(code); S->checks++; if (!r.err) violation("accepted", "%s is accepted", code.c_str()); }); } }); }
void overrides() { types("overrides of", thorough() ? 3 : 2, [](O &x, uint32_t t, uint32_t n) { for (auto &g : targets(t, n)) for (int h = g.c > 1 && g.expr.back() == ']'; h < 2; h++) { if (h && g.c == 1) continue; string tg = target(g, h); auto vs = values(g); if (vs.size() > 3) vs = {vs[0], vs[vs.size() / 2], vs.back()};
        for (auto &v : vs) { Bytes d; if (!whole(g, v, d)) continue; string c = "override_add(" + tg + "," + lit(v) + ")"; x.add(c, [=](OM &) { both(c, lua(c), srv::ov_add(wire, idx[TW], 0, d, maskof(g))); }); string w = "tag_write(" + tg + "," + lit(v) + ")"; x.add(w, [=](OM &) { both(w, lua(w), srv::tmask(wire, idx[TW], 0, d, maskof(g))); }); }
        string c = "override_set(" + tg + ")"; x.add(c, [=](OM &) { both(c, lua(c), srv::ov_set(wire, idx[TW], 1)); }); string q = "override_clr(" + tg + ")"; x.add(q, [=](OM &) { both(q, lua(q), srv::ov_set(wire, idx[TW], 0)); });
        string e = "override_del(" + tg + ")"; x.add(e, [=](OM &) { both(e, lua(e), srv::ov_del(wire, idx[TW], 0, maskof(g))); }); } }); }
string hs(const srv::H &h) { return sfmt("%d %u %u %u %u %u", h.index, h.byte, h.bit, h.count, h.size, h.type); }
const char *HF = "function HF(h) if h == nil then return 'nil' end return string.format('%d %d %d %d %d %d', h.index, h.byte, h.bit, h.count, h.size, h.type) end M = {} E = {} LOG = {} ";
// mappings from the script's tag to d and from the twin to e
void maps() { types("mappings of", thorough() ? 5 : 4, [](O &x, uint32_t t, uint32_t n) { mk("d", t, n); mk("e", t, n); lua(HF); auto tg = targets(t, n); if (tg.size() > 3) tg.erase(tg.begin() + 1); std::vector<std::pair<Tg, Tg>> P; for (auto &a : tg) for (auto &b : tg) { Tg q = b; q.expr.replace(0, 1, "d"); q.tag = "d"; if (&a == &b || &b == &tg[0] || (&a == &tg[0] && P.size() < 2) || &b == &tg.back()) P.push_back({a, q}); }
        static int slot[2]; slot[0] = slot[1] = 0; static std::vector<srv::H> src, dst; static std::vector<int> ids; src.clear(); dst.clear(); ids.clear();
        auto chk = [](const char *what) { auto a = srv::tread(wire, idx["d"], 0, (uint32_t)tagbytes), b = srv::tread(wire, idx["e"], 0, (uint32_t)tagbytes); S->checks++; if (a.data != b.data) violation("mapping", "%s: the destination is %s, the same mappings made directly give %s", what, srv::hex(a.data).c_str(), srv::hex(b.data).c_str()); };
        (void)chk; for (auto &p : P) for (int h = 0; h < 2; h++) { Tg a = p.first, b = p.second; if (!h && ((a.c > 1 && a.expr.back() == ']') || (b.c > 1 && b.expr.back() == ']'))) continue; string c = "M[#M+1] = map_add(" + target(a, h) + "," + target(b, h) + ")"; x.add(c, [=](OM &m) { Tg e = b; auto r = lua(c + " return 'x'"); auto w = srv::map_add(wire, hof(a, TW), hof(e, "e")); both(c, r, w); if (!r.err) { m.map++; lua("W = W or {} W[#M] = {" + sfmt("%d,%d,'%s','%s'", idx[TW], srv::i32(w.data), hs(hof(a, TY)).c_str(), hs(hof(b, "d")).c_str()) + "}"); } }, [](const OM &m) { return m.map < 2; }); }
        x.add("the source is written", [=](OM &m) { Bytes d(tagbytes); for (size_t i = 0; i < d.size(); i++) d[i] = (uint8_t)(0x5a + 0x37 * i + 0x11 * m.n); m.n++; if (t == DAX_BOOL && n % 8) d.back() &= (uint8_t)((1 << n % 8) - 1); srv::twrite(wire, idx[TY], 0, d); srv::twrite(wire, idx[TW], 0, d); chk("after a write"); }, [](const OM &m) { return m.n < 2; });
        for (int k = 1; k <= 2; k++) { x.add(sfmt("map_get of mapping %d", k), [=](OM &) { Res g = lua(sfmt("local w = W[%d] return w[1]..' '..w[2]", k)); int i, id; sscanf(g.out.c_str(), "%d %d", &i, &id); bool there = srv::map_get(wire, i, id).err == 0;
                Res r = lua(sfmt("local a,b = map_get(M[%d]) local w = W[%d] local s, d = HF(a), HF(b) if s == w[3] and d == w[4] then return 'the handles' end return s..' and '..d", k, k)); S->checks++; if (r.err || r.out != (there ? "the handles" : "nil and nil")) violation("map_get", "map_get() gives %s, but the mapping %s", r.out.c_str(), there ? "exists with other handles" : "does not exist"); }, [=](const OM &m) { return m.map >= k; });
            x.add(sfmt("map_del of mapping %d", k), [=](OM &) { Res g = lua(sfmt("local w = W[%d] return w[1]..' '..w[2]", k)); int i, id; sscanf(g.out.c_str(), "%d %d", &i, &id); Res r = lua(sfmt("map_del(M[%d])", k)); both(sfmt("map_del(%d)", k), r, srv::map_del(wire, i, id)); }, [=](const OM &m) { return m.map >= k; }); }
        }); }
// events of the script's tag against the same registrations for the twin
int wevents() { srv::drain(wire); int n = (int)srv::events.size(); srv::events.clear(); return n; }
void events() { static const char *kinds[] = {"", "WRITE", "CHANGE", "SET", "RESET", "EQUAL", "GREATER", "LESS", "DEADBAND"}; static const int kid[] = {0, EVENT_WRITE, EVENT_CHANGE, EVENT_SET, EVENT_RESET, EVENT_EQUAL, EVENT_GREATER, EVENT_LESS, EVENT_DEADBAND};
    types("events of", 3, [](O &x, uint32_t t, uint32_t n) { lua(HF); auto fs = few(t); auto tg = targets(t, n); 
        for (auto &g : tg) for (int k = 1; k <= 8; k++) { std::vector<V> vs = k < 5 || t == DAX_BOOL ? std::vector<V>{I(0)} : fs; if (tg.size() > 1 && vs.size() > 4) vs = {vs[1], vs[vs.size() / 2], vs.back()}; for (auto &v : vs) {
            Bytes d; if (t != DAX_BOOL) { Enc e; e.d = Bytes(W.size(t), 0); enc(e, t, 1, 0, v); if (e.any.size() || e.refuse) continue; d = e.d; }
            string c = "E[#E+1] = event_add(\"" + g.expr + sfmt("\",%u,\"%s\",", g.expr.back() == ']' ? g.c : 0, kinds[k]) + lit(v) + ",function(a) LOG[#LOG+1] = a end,'d'..#E)"; x.add(c, [=](OM &m) { auto r = lua(c + " return #E"); auto w = srv::ev_add(wire, hof(g, TW), kid[k], d); both(c, r, w); if (!r.err) { m.ev++; lua(sfmt("W = W or {} W[#E] = {%d,%d}", idx[TW], srv::i32(w.data))); } }, [=](const OM &m) { return m.ev < (thorough() || k <= 2 ? 2 : 1); }); } }
        auto write = [=](OM &m, const Bytes &d, const string &what) { m.n++; wevents(); srv::twrite(wire, idx[TY], 0, d); srv::twrite(wire, idx[TW], 0, d); cli::call(1, []() {}); int want = wevents(); Res r = lua(sfmt("LOG = {} local n = 0 while n < 20 and event_poll() == 1 do n = n + 1 end local p = event_poll() return string.format('%%d %%d %%d', n, #LOG, p)")); S->checks++; string w = sfmt("%d %d 0", want, want); if (r.err || r.out != w) violation("events", "%s: events, callbacks and a further poll are %s, expected %s", what.c_str(), r.out.c_str(), w.c_str()); };
        for (size_t i = 0; i < fs.size() + (n > 1); i++) { Bytes d; if (i == fs.size()) { std::vector<V> q(n, fs[0]); q[n * 3 / 4] = fs[1]; Tg g = {TY, TY, t, n, 0}; whole(g, A(q), d); } else if (n == 1) { Tg g = {TY, TY, t, 1, 0}; whole(g, fs[i], d); } else { std::vector<V> q; for (uint32_t k = 0; k < n; k++) q.push_back(fs[(i + (k == n - 1)) % fs.size()]); Tg g = {TY, TY, t, n, 0}; whole(g, A(q), d); } if (d.size()) x.add("write " + srv::hex(d), [=](OM &m) { write(m, d, "after a write of " + srv::hex(d)); }, [](const OM &m) { return m.ev > 0; }); }
        x.add("event_del of the first", [=](OM &m) { Res g = lua("local w = W[1] return w[1]..' '..w[2]"); int i, id; sscanf(g.out.c_str(), "%d %d", &i, &id); Res r = lua("event_del(E[1]) event_del(E[1])"); srv::ev_del(wire, i, id); if (r.err) violation("refused", "event_del fails: %s", r.out.c_str()); m.ev += 10; }, [](const OM &m) { return m.ev > 0 && m.ev < 10; });
        }); }
// tags and datatypes: p, q and the datatype U of the script, wp, wq and V sent directly
struct TM { uint32_t utype = 0; uint64_t h[2] = {0, 0}; uint64_t hash() const { return utype + h[0] * 31 + h[1] * 1009; } };
void tagops(bool full) { string nm = full ? "tags and datatypes" : "tags and datatypes, deeper"; if (const char *q = getenv("MC_ONLY")) if (*q && nm.find(q) != 0) return; run_forked(nm.c_str(), [=]() { boot(); lua(HF); Explorer<TM> x; x.name = nm; x.depth = (thorough() ? 3 : 2) + !full;
    x.sweep = [](TM &m) { for (auto n : {"p", "q"}) { string w = string("w") + n; auto r = srv::tag_get(wire, w); string want = "no tag"; if (!r.err) { uint32_t t = (uint32_t)srv::i32(r.data, 4); string tn = m.utype && t == m.utype + 1 ? "U" : W.tname(t & ~DAX_QUEUE); auto o = srv::tag_get(wire, string(n)); if (o.err) violation("tag_add", "the tag %s does not exist", n); if (o.data[12] != r.data[12] || o.data[13] != r.data[13]) violation("tag_add", "the attributes of %s are %02x%02x, expected %02x%02x", n, o.data[13], o.data[12], r.data[13], r.data[12]); want = string(n) + " " + tn + " " + std::to_string(srv::i32(r.data, 8)); }
            auto g = lua(sfmt("local ok,a,b,c = pcall(tag_get,'%s') if not ok then return 'no tag' end return a..' '..b..' '..c", n)); S->checks++; if (g.err || g.out != want) violation("tag_get", "tag_get(\"%s\") gives %s, expected %s", n, g.out.c_str(), want.c_str());
            for (auto e : {"", "[0]", "[2]", "[9]", ".a", ".f[1]", ".d", "[1].d[1]"}) for (int c = 0; c <= 2; c++) { tag_handle h; memset(&h, 0, sizeof h); int res = 0; string ex = w + e; cli::call(1, [&]() { res = api::dax_tag_handle(ds, &h, ex.data(), c); }); string wh = res ? "refused" : sfmt("%u %u %u %u %u", h.byte, h.bit, h.count, h.size, h.type == m.utype + 1 && m.utype ? m.utype : h.type);
                auto k = lua(sfmt("local ok,h = pcall(tag_handle,'%s%s',%d) if not ok then return 'refused' end return string.format('%%d %%d %%d %%d %%d',h.byte,h.bit,h.count,h.size,h.type)", n, e, c)); S->checks++; outcome((uint64_t)(res != 0)); if (k.err || k.out != wh) violation("tag_handle", "tag_handle(\"%s%s\",%d) gives %s, dax_tag_handle() for the same kind of tag %s", n, e, c, k.out.c_str(), wh.c_str()); } } };
    struct Def { const char *lua, *wire; }; for (auto d : {Def{"{{'a','INT',1},{'f','BOOL',3},{'d','DINT',2}}", ":a,INT,1:f,BOOL,3:d,DINT,2"}, Def{"{{'a','LREAL',1}}", ":a,LREAL,1"}, Def{"{{'a','NOPE',1}}", ":a,NOPE,1"}, Def{"{{'a','INT',1},{'d','BOOL',0}}", ":a,INT,1:d,BOOL,0"}, Def{"{{'a','INT',1},{'a','INT',1}}", ":a,INT,1:a,INT,1"}, Def{"{{'d','INT',2},{'a','CHAR',5},{'f','LINT',2}}", ":d,INT,2:a,CHAR,5:f,LINT,2"}}) { string c = string("cdt_create('U',") + d.lua + ")", w = string("V") + d.wire; x.add(c, [=](TM &m) { auto r = lua("return string.format('%d'," + c + ")"); auto q = srv::cdt_create(wire, w); both(c, r, q); if (!r.err) { m.utype = (uint32_t)strtoul(r.out.c_str(), nullptr, 10); if ((uint32_t)srv::i32(q.data) != m.utype + 1) violation("cdt_create", "the datatype is %s", r.out.c_str()); } }); }
    for (int n = 0; n < 2; n++) { string nm = n ? "q" : "p", wn = "w" + nm; for (auto t : {"'BOOL'", "'DINT'", "'char'", "'U'", "'V2'", "6", "0"}) for (auto ca : {"", ",1", ",3", ",0", ",2,TAG_ATTR_RETAIN", ",3,0"}) { if (n && (strlen(ca) > 2 || !strcmp(ca, ",0"))) continue; if (!full && (t[1] == 'c' || t[1] == 'V' || *t == '0' || *t == '6' || (*ca && strcmp(ca, ",3")) || (n && t[1] != 'U'))) continue; string c = "tag_add('" + nm + "'," + t + ca + ")"; string ty = t, a = ca; x.add(c, [=](TM &m) { auto r = lua("local h = " + c + " return h.count"); uint32_t k = ty == "'BOOL'" ? DAX_BOOL : ty == "'DINT'" ? DAX_DINT : ty == "'U'" ? (m.utype ? m.utype + 1 : 0) : ty == "6" ? 6u : 0; if (ty == "'char'") { both(c, r, srv::Reply{r.err ? -1 : 0}); if (r.err) return; k = DAX_CHAR; } srv::Reply q; if (!k) q.err = -1; else cli::call(1, [&]() { tag_handle h; string z = wn; q.err = api::dax_tag_add(ds, &h, z.data(), k, a == "" || a == ",1" ? 1 : a == ",0" ? 0 : a[1] - '0', a.size() > 6 ? TAG_ATTR_RETAIN : 0); }); both(c, r, q); if (!r.err) m.h[n]++; }); }
        string c = "tag_del('" + nm + "')"; x.add(c, [=](TM &) { auto g = srv::tag_get(wire, wn); auto r = lua(c); srv::Reply q; q.err = -1; if (!g.err) cli::call(1, [&]() { q.err = api::dax_tag_del(ds, srv::i32(g.data)); }); both(c, r, q); }); }
    TM m; x.run(m); }); }
// structures nested to every depth up to 40, written and read whole, by a structure in an array, and with an error at the innermost place
void deep() { if (const char *q = getenv("MC_ONLY")) if (*q && string("nested structures").find(q) != 0) return; for (int arr = 0; arr < 2; arr++) run_forked(arr ? "nested arrays of structures" : "nested structures", [=]() { boot(); Explorer<OM> x; x.name = arr ? "nested arrays of structures" : "nested structures"; x.depth = 1; int N = arr ? 9 : 40;
    for (int n = 1; n <= N; n++) x.add(sfmt("%d levels", n), [=](OM &) { string c = "function same(a,b) if type(a) ~= type(b) then return false end if type(a) ~= 'table' then return a == b end for k,v in pairs(a) do if not same(v,b[k]) then return false end end for k in pairs(b) do if a[k] == nil then return false end end return true end "
        "cdt_create('D1',{{'v','INT',1},{'w','DINT',2}}) "; for (int i = 2; i <= n; i++) c += sfmt("cdt_create('D%d',{{'k','INT',1},{'m','D%d',%d},{'z','SINT',1}}) ", i, i - 1, arr ? 2 : 1);
        c += sfmt("C = 0 function val(l) C = C + 1 if l == 1 then return {v=C,w={C*7,-C}} end %s end ", arr ? "local k = C return {k=k,m={val(l-1),val(l-1)},z=k%100}" : "local k = C return {k=k,m=val(l-1),z=-k}"); c += sfmt("tag_add('dp','D%d',1) local t = val(%d) tag_write('dp',t) local r = tag_read('dp') if not same(t,r) then return 'other' end return 'same'", n, n);
        if (lua(c).err) violation("refused", "%s", lua(c).out.c_str()); auto r = lua("return same({1},{1}) and 'ok'"); S->checks++; r = lua(sfmt("C = 5 local t = val(%d) collectgarbage() collectgarbage() tag_write('dp',t) collectgarbage() collectgarbage() local r = tag_read('dp') if same(t,r) then return 'same' end return 'different'", n)); if (r.err || r.out != "same") violation("nested", "a structure of %d levels that was written and read is %s", n, r.out.c_str());
        string p = "t"; for (int i = 1; i < n; i++) p += arr ? ".m[2]" : ".m"; r = lua(sfmt("local t = val(%d) %s.w = 5 local ok = pcall(tag_write,'dp',t) return ok and 'accepted' or 'refused'", n, p.c_str())); if (r.err || r.out != "refused") violation("nested", "a number for an array at level %d is %s", n, r.out.c_str());
        string e = "dp"; for (int i = 1; i < n; i++) e += arr ? ".m[0]" : ".m"; if (e.size() < 200) { r = lua(sfmt("tag_write('%s.v',77) local t = tag_read('dp') local u = t%s return string.format('%%d',u.v)", e.c_str(), [&]() { string z; for (int i = 1; i < n; i++) z += arr ? ".m[1]" : ".m"; return z; }().c_str())); if (r.err || r.out != "77") violation("nested", "the innermost member at level %d is %s after 77 was written to it", n, r.out.c_str()); } });
    OM o; x.run(o); }); }
void c32() { deep(); tagops(true); tagops(false); atomics(); overrides(); maps(); events(); }
Reg r32("C32", c32, "every sequence up to the depth of tag_add, tag_del and cdt_create calls of every kind with tag_get and tag_handle of every expression after each; for every data type as scalar and array, and every way of naming the place: every atomic operation with boundary operands, sequences of override and write calls, of mapping calls and source writes, and of event_add, event_del and writes with event_poll; each call is repeated directly with the same arguments for a twin of the tag, and results, data, overrides, neighbours, handles, and the number of events and callbacks are compared");
}
