// C29: the MQTT module between the real tag server and a broker played by the harness.
#include "dl.h"
using namespace dl;
struct Sub { int qos; char topic[64]; }; struct Pub { int qos, retained, len; char topic[64]; unsigned char d[256]; }; struct In { int kind, len; char topic[64]; unsigned char d[256]; };
static Sub *subs; static Pub *pubs; static In *ret_; static int *nsubs, *npubs, *nin, *done_, *up, *connected, *nconn, *ndisc, *ndest, *exited, *live, *refused, *bad, *nomsg, *hasret; static char *uri_, *client_, *user_, *pass_;
static void (*push)(int, const char *, const void *, int); static void (*term)(int); static int mq = -1;
static int sigact(int sig, const struct sigaction *a, struct sigaction *) { if (sig == SIGTERM && a) term = a->sa_handler; return 0; }
static void on_exit_(int c) { *exited = 1 + c; for (;;) rt::ext_call(99); }
static int wait_() { return rt::ext_call(50); }
static void wake() { if (rt::ext_pending(mq) == 50) rt::ext_answer(mq, 1); }
static void after_load() {
    rt::sigaction_hook = sigact; rt::exit_hook = on_exit_;
#define V(v, n) v = (decltype(v))rt::sym(lib, "mc_" #n)
    V(subs, subs); V(pubs, pubs); V(ret_, ret); V(nsubs, nsubs); V(npubs, npubs); V(nin, nin); V(done_, done); V(up, up); V(connected, connected); V(nconn, nconn); V(ndisc, ndisc); V(ndest, ndest); V(exited, exited); V(live, live); V(refused, refused); V(bad, bad); V(nomsg, nomsg); V(hasret, hasret); V(uri_, uri); V(client_, client); V(user_, user); V(pass_, pass); V(push, push);
    *(int (**)())rt::sym(lib, "mc_wait") = wait_; *(void (**)())rt::sym(lib, "mc_wake") = wake;
    mq = rt::spawn_c(1, (void *(*)(void *))rt::sym(lib, "mq_thread"), nullptr); idle();
}
static const Prog P = {"mqtt.so", "mqtt_main", "daxmqtt", 3};
static void mload() { prog = P; load(); after_load(); }
static string conf(const string &t, const string &auth = "") { return "broker_ip = \"10.1.2.3\"\nbroker_port = \"1884\"\nbroker_timeout = \"7\"\nclientid = \"cid\"\n" + auth + t; }
// the MQTT rules for topic filters
static vector<string> levels(const string &s) { vector<string> v(1); for (char c : s) if (c == '/') v.emplace_back(); else v.back() += c; return v; }
static bool match(const string &f, const string &t) { auto a = levels(f), b = levels(t); for (size_t i = 0; i < a.size(); i++) { if (a[i] == "#") return true; if (i >= b.size() || (a[i] != "+" && a[i] != b[i])) return false; } return a.size() == b.size(); }
static string hex(const unsigned char *d, size_t n) { string s; for (size_t i = 0; i < n && i < 40; i++) s += sfmt("%02x", d[i]); return s; }
static bool deliver(const string &t, const Bytes &d, bool wait = true) {             // what a broker does with a message
    if (!*connected) return false; bool any = false; for (int i = 0; i < *nsubs; i++) if (match(subs[i].topic, t)) any = true; if (!any) return false;
    push(1, t.c_str(), d.data(), (int)d.size()); wake(); if (wait) idle(); return true;
}
static void lose(bool wait = true) { if (!*connected) return; *connected = 0; *nsubs = 0; push(2, "", nullptr, 0); wake(); if (wait) idle(); }
static void alive() {
    if (!running() || *exited) violation("died", "the module has ended"); if (*refused) violation("refused", "the module does not accept a message"); if (*nomsg) violation("callback", "a message arrives before the module set its callback"); if (*live) violation("memory", "%d parts of received messages are not released", *live); if (*bad) violation("connect", "the connection's keep-alive or timeout is not set"); if (*nin != *done_) violation("hang", "a message is stuck in the module");
}
static Bytes txt(const string &s) { return Bytes(s.begin(), s.end()); }
static Bytes i2(int v) { return by({v, v >> 8}); } static Bytes i4(int v) { return by({v, v >> 8, v >> 16, v >> 24}); }
static Bytes f4(float f) { Bytes b(4); memcpy(b.data(), &f, 4); return b; }
static Bytes cat(Bytes a, const Bytes &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static void forked(const string &n, const std::function<void()> &f) { if (const char *o = getenv("MC_ONLY")) if (*o && n.find(o) != 0) return; run_forked(n.c_str(), f); }
// ---- histories
struct Exp { string topic; int qos, ret; Bytes d; };
static const char *TN[] = {"r", "g1", "g2", "n", "m1", "m2", "m3", "o", "a", "p", "t", "t2", "t3", "l", "lp"}; enum { R_, G1, G2, N_, M1, M2, M3, O_, A_, P_, T_, T2, T3, L_, LP, NT };
static uint32_t TY[NT] = {DAX_INT, DAX_INT, DAX_DINT, DAX_DINT, DAX_INT, DAX_REAL, DAX_BOOL, DAX_DINT, DAX_INT, 0, DAX_INT, DAX_INT, DAX_BOOL, DAX_INT, DAX_INT}; static const uint32_t TC[NT] = {1, 1, 2, 1, 1, 1, 12, 1, 4, 1, 1, 1, 1, 1, 1}, TS[NT] = {2, 2, 8, 4, 2, 4, 2, 4, 8, 6, 2, 2, 1, 2, 2};
static int id[NT];
struct MM { Bytes v[NT]; bool late = false, lateok = false; vector<Exp> want; int marks = 0; uint64_t hash() const { uint64_t h = (uint64_t)late + 2 * (uint64_t)lateok; for (auto &b : v) for (uint8_t c : b) h = h * 257 + c + 1; return h; } };
typedef Explorer<MM> MX;
static int num(const Bytes &b) { return b.size() == 2 ? (int16_t)(b[0] | b[1] << 8) : b[0] | b[1] << 8 | b[2] << 16 | b[3] << 24; }
static const char *CONF = R"(
function list(p) local x = {}; local i = 0; for w in string.gmatch(p, "[^,]+") do i = i + 1; if w == "t" then x[i] = true elseif w ~= "nil" then x[i] = tonumber(w) end end; return x end
add_sub{topic="late", tags="l", qos=2}
add_sub{topic="raw", tags="r", qos=1}
add_sub{topic="grp", tags={"g1","g2"}, qos=2}
add_sub{topic="num/+", tags="n", filter=function(t,p) mark(1,t,p); if p=="err" then error("no") end; if p=="nil" then return nil end; return tonumber(p) end}
add_sub{topic="num/x", tags="o"}
add_sub{topic="multi/#", tags={"m1","m2","m3"}, qos=1, filter=function(t,p) if p=="number" then return 5 end; if p=="string" then return "abc" end; if p=="nothing" then return end; local x=list(p); if p=="bits" then return {nil,nil,{true,false,nil,true,[12]=true}} end; if p=="badbits" then return {9,nil,7} end; return x end}
add_sub{topic="only", filter=function(t,p) if p=="err" then error("no") end; tag_write("o", #p + tag_read("n")) end}
add_sub{topic="arr", tags={"a"}, filter=function(t,p) if p=="scalar" then return 3 end; return list(p) end}
add_sub{topic="bits", tags="m3", filter=function(t,p) return {true,false,nil,true,nil,nil,nil,nil,nil,nil,false,true} end}
add_sub{topic="cdt", tags="p", filter=function(t,p) if p=="scalar" then return 3 end; if p=="bad" then return {a=4,b={}} end; return {a=tonumber(p)} end}
add_pub{topic="p/late", tags="g1", trigger_tag="lp", qos=1}
add_pub{topic="p/raw", tags="r", qos=1, retained=true}
add_pub{topic="p/grp", tags={"g1","m2","n"}, trigger_tag="t", trigger_type=CHANGE, qos=2}
add_pub{topic="p/flt", tags={"m1","m2","n"}, trigger_tag="t2", trigger_type=EQUAL, trigger_value="5", filter=function(t,v) if v[1]==9 then error("nine") end; if v[3]==42 then return nil end; return t..":"..v[1]..","..v[3].."\0z" end}
add_pub{topic="p/none", trigger_tag="t3", trigger_type=SET, filter=function(t,v) return v==nil and tostring(tag_read("t")) or "?" end}
add_pub{topic="p/one", tags="a", trigger_tag="t", trigger_type=CHANGE, filter=function(t,v) return table.concat(v, " ") end}
)";
static void check_pubs(MM &m) {
    std::multiset<string> a, b; auto s = [](const string &t, int q, int r, const unsigned char *d, int n) { return sfmt("%s qos %d%s: ", t.c_str(), q, r ? " retained" : "") + sfmt("%d bytes ", n) + hex(d, (size_t)n); };
    for (int i = 0; i < *npubs; i++) a.insert(s(pubs[i].topic, pubs[i].qos, pubs[i].retained != 0, pubs[i].d, pubs[i].len)); for (auto &e : m.want) b.insert(s(e.topic, e.qos, e.ret, e.d.data(), (int)e.d.size()));
    for (auto &x : b) if (!a.count(x)) violation("publish", "not published: %s (published: %s)", x.c_str(), a.empty() ? "nothing" : a.begin()->c_str()); for (auto &x : a) if (a.count(x) != b.count(x)) violation("publish", "published %d times instead of %d: %s", (int)a.count(x), (int)b.count(x), x.c_str());
    *npubs = 0; m.want.clear(); S->checks++;
}
static void check_tags(MM &m) { for (int i = 0; i < NT; i++) { if (i >= L_ && !m.late) continue; Bytes d = get(id[i], 0, TS[i]); if (d != m.v[i]) violation("tag", "tag %s is %s, expected %s", TN[i], hex(d.data(), d.size()).c_str(), hex(m.v[i].data(), m.v[i].size()).c_str()); } S->checks++; }
static string flt(MM &m, int k) { (void)k; return sfmt("p/flt:%d,%d", num(m.v[M1]), num(m.v[N_])) + string("\0z", 2); }
static void set(MM &m, int i, const Bytes &b) {                   // the model: tag i gets a value, publishers are triggered
    Bytes old = m.v[i]; m.v[i] = b; if (!*connected) return;
    if (i == R_) m.want.push_back({"p/raw", 1, 1, b});
    if (i == T_ && old != b) { m.want.push_back({"p/grp", 2, 0, cat(cat(m.v[G1], m.v[M2]), m.v[N_])}); string s; for (int k = 0; k < 4; k++) s += sfmt(k ? " %d" : "%d", num(Bytes(m.v[A_].begin() + 2 * k, m.v[A_].begin() + 2 * k + 2))); m.want.push_back({"p/one", 0, 0, txt(s)}); }
    if (i == T2 && num(b) == 5 && num(old) != 5 && num(m.v[M1]) != 9 && num(m.v[N_]) != 42) m.want.push_back({"p/flt", 0, 0, txt(flt(m, 0))});
    if (i == T3 && b[0] && !old[0]) m.want.push_back({"p/none", 0, 0, txt(sfmt("%d", num(m.v[T_])))});
    if (i == LP && m.lateok) m.want.push_back({"p/late", 1, 0, m.v[G1]});
}
static void fput(MM &m, int i, const Bytes &b) { if (i >= L_ && !m.late) return; set(m, i, b); put(id[i], b); }
static const std::map<string, int> QOS = {{"raw", 1}, {"grp", 2}, {"num/+", 0}, {"num/x", 0}, {"multi/#", 1}, {"only", 0}, {"arr", 0}, {"cdt", 0}, {"bits", 0}, {"late", 2}};
static void check_subs(MM &m) {
    std::map<string, int> q = QOS; if (!m.late) q.erase("late"); for (int i = 0; i < *nsubs; i++) { auto f = q.find(subs[i].topic); if (f == q.end()) { if (string(subs[i].topic) != "late") violation("subscribe", "subscribed to %s", subs[i].topic); continue; } if (f->second != subs[i].qos) violation("subscribe", "subscribed to %s with qos %d, configured is %d", subs[i].topic, subs[i].qos, f->second); q.erase(f); }
    if (!q.empty()) violation("subscribe", "not subscribed to %s %s", q.begin()->first.c_str(), *nconn > 1 ? "after the connection was made again" : ""); S->checks++;
}
static bool on() { return *connected != 0; }
static void wait_conn(MM &m) { for (int k = 0; k < 45 && !on(); k++) pass(1000); if (!on()) violation("reconnect", "no connection 45 s after the broker is up again"); pass(6000); check_subs(m); }
static void stop() { if (!term) violation("signal", "SIGTERM is not handled"); bool was = on(); bool o = rt::in_target; rt::in_target = true; term(SIGTERM); rt::in_target = o; pass(3000); if (!*exited) violation("exit", "the module does not end after SIGTERM"); if (was && *connected) violation("exit", "the module leaves the connection to the broker open"); }
static void histories(const string &nm, int depth, bool core) {
    forked(nm, [=]() {
        mload(); { auto r = srv::cdt_create(wire, "Pt:a,INT,1:b,REAL,1:"); if (r.err) violation("refused", "type: error %d", r.err); TY[P_] = (uint32_t)srv::i32(r.data); }
        MM m; for (int i = 0; i < NT; i++) { m.v[i] = Bytes(TS[i], 0); if (i < L_) id[i] = tag(TN[i], TY[i], TC[i]); } { m.v[A_] = by({1, 0, 2, 0, 3, 0, 4, 0}); put(id[A_], m.v[A_]); }
        start(conf(CONF, "username = \"me\"\npassword = \"secret\"\n"), {}); pass(1000);
        if (string(uri_) != "tcp://10.1.2.3:1884" || string(client_) != "cid") violation("connect", "connected to %s as %s", uri_, client_); if (string(user_) != "me" || string(pass_) != "secret") violation("connect", "user name %s and password %s are given to the broker, configured are \"me\" and \"secret\"", user_, pass_);
        check_subs(m);
        MX x; x.name = nm; x.depth = depth; x.sweep = [](MM &m) { alive(); check_tags(m); if (*npubs) violation("publish", "unexpected publication on %s", pubs[0].topic); };
        auto msg = [&](const string &t, const Bytes &d, std::function<void(MM &)> eff, const string &nm = "") { x.add("message " + t + " " + (nm.empty() ? string(d.begin(), d.end()) : nm), [=](MM &m) { bool was = deliver(t, d); if (was) eff(m); if (on() && !was && t != "late") violation("subscribe", "no subscription receives topic %s", t.c_str()); check_pubs(m); check_tags(m); }); };
        auto none = [](MM &) {}; auto val = [&](int i, const Bytes &b) { return [i, b](MM &m) { set(m, i, b); }; };
        msg("raw", i2(0x1234), val(R_, i2(0x1234)), "1234"); msg("raw", by({7, 8, 9}), val(R_, by({7, 8})), "3 bytes");
        msg("grp", cat(i2(5), cat(i4(-6), i4(0x01020304))), [](MM &m) { set(m, G1, i2(5)); set(m, G2, cat(i4(-6), i4(0x01020304))); }, "5,-6,..");
        msg("num/x", txt("42"), val(N_, i4(42))); msg("num/", txt("-3"), val(N_, i4(-3))); msg("num/y", txt("err"), none); msg("num/y", txt("nil"), none);
        msg("multi/a/b", txt("9,2.5"), [](MM &m) { set(m, M1, i2(9)); set(m, M2, f4(2.5)); }); msg("multi", txt("nil,-1.5"), [](MM &m) { set(m, M2, f4(-1.5)); }); for (auto t : {"number", "string", "nothing", "badbits"}) msg("multi/x", txt(t), none); msg("multi/y", txt("bits"), [](MM &m) { Bytes b = m.v[M3]; b[0] = (uint8_t)((b[0] & ~3) | 1 | 8); b[1] |= 8; set(m, M3, b); });
        msg("bits", txt("x"), [](MM &m) { Bytes b = m.v[M3]; b[0] = (uint8_t)((b[0] & ~2) | 1 | 8); b[1] = (uint8_t)((b[1] & ~4) | 8); set(m, M3, b); });
        msg("only", txt("abc"), [](MM &m) { set(m, O_, i4(3 + num(m.v[N_]))); }); msg("only", by({'a', 0, 'b', 'c'}), [](MM &m) { set(m, O_, i4(4 + num(m.v[N_]))); }, "with a NUL"); msg("only", txt("err"), none);
        msg("arr", txt("7,nil,-8"), [](MM &m) { Bytes b = m.v[A_]; b[0] = 7; b[1] = 0; b[4] = 0xF8; b[5] = 0xFF; set(m, A_, b); }); msg("arr", txt("scalar"), none);
        msg("cdt", txt("77"), [](MM &m) { Bytes b = m.v[P_]; b[0] = 77; b[1] = 0; set(m, P_, b); }); msg("cdt", txt("scalar"), none); msg("late", i2(0x55), [](MM &m) { set(m, L_, i2(0x55)); }, "55"); msg("nosuch", txt("x"), none);
        x.ops.erase(x.ops.end() - 1); x.add("message for nobody", [](MM &m) { if (!on()) return; push(1, "nosuch/topic", "x", 1); wake(); idle(); check_pubs(m); });
        x.add("t + 1", [](MM &m) { fput(m, T_, i2(num(m.v[T_]) + 1)); check_pubs(m); }); x.add("t again", [](MM &m) { fput(m, T_, m.v[T_]); check_pubs(m); }); x.add("t2 = 5", [](MM &m) { fput(m, T2, i2(5)); check_pubs(m); }); x.add("t2 = 6", [](MM &m) { fput(m, T2, i2(6)); check_pubs(m); }); x.add("t3 toggles", [](MM &m) { fput(m, T3, by({!m.v[T3][0]})); check_pubs(m); });
        x.add("r again", [](MM &m) { fput(m, R_, m.v[R_]); check_pubs(m); }); x.add("a, p and m3 are written by others", [](MM &m) { for (int i : {A_, P_, M3}) { Bytes b = m.v[i]; for (size_t k = 0; k < b.size(); k++) b[k] = (uint8_t)(b[k] + 3 + k); if (i == M3) b[1] &= 15; if (i == P_) { float f = 1.25; memcpy(&b[2], &f, 4); } fput(m, i, b); } check_pubs(m); });
        x.add("lp + 1 or l and lp are created", [](MM &m) { if (m.late) { fput(m, LP, i2(num(m.v[LP]) + 1)); check_pubs(m); return; } m.late = true; for (int i : {L_, LP}) id[i] = tag(TN[i], TY[i], TC[i]); if (!on()) return; pass(13000); m.lateok = true; check_subs(m); check_pubs(m); });
        x.add("the connection is lost", [](MM &m) { if (!on()) return; lose(); wait_conn(m); if (m.late) m.lateok = true; check_pubs(m); });
        x.add("the broker fails or is back", [](MM &m) { if (*up) { *up = 0; lose(); pass(5000); if (on()) violation("harness", "connected"); } else { *up = 1; wait_conn(m); pass(8000); if (m.late) m.lateok = true; } check_pubs(m); });
        x.add("2 s", [](MM &m) { pass(2000); check_pubs(m); });
        x.leaf = [](MM &) { stop(); };
        if (core) { vector<Op<MM>> k; for (auto &o : x.ops) for (auto n : {"message raw 1234", "message num/x 42", "message multi nil,", "message arr 7", "message only abc", "message late", "t + 1", "t2 =", "lp + 1", "the "}) if (o.name.find(n) == 0) k.push_back(o); x.ops = k; }
        x.run(m);
    });
}
// ---- every topic filter against every topic
static void filters() {
    vector<string> f = {"#"}, t, cur = {""}; for (int k = 0; k < 3; k++) { vector<string> nx; for (auto &c : cur) for (auto l : {"a", "ab", "+"}) nx.push_back(k ? c + "/" + l : l); for (auto &n : nx) { f.push_back(n); f.push_back(n + "/#"); } cur = nx; }
    for (auto l : {"/a", "a//b", "+/", "/+", "/#", "/", "a/"}) f.push_back(l);
    cur = {""}; for (int k = 0; k < (thorough() ? 4 : 3); k++) { vector<string> nx; for (auto &c : cur) for (auto l : {"a", "ab", "b", ""}) nx.push_back(k ? c + "/" + l : l); for (auto &n : nx) if (!n.empty()) t.push_back(n); cur = nx; }
    static vector<string> T; static string F; T = t; const size_t per = 8;
    for (size_t g = 0; g < f.size(); g += per) forked(sfmt("filters-%zu", g / per), [&]() {
        mload(); string c = "function f(k) return function(t, p) mark(k, t, p) end end\n"; vector<string> grp(f.begin() + (long)g, f.begin() + (long)std::min(f.size(), g + per)); for (size_t i = 0; i < grp.size(); i++) c += sfmt("add_sub{topic=\"%s\", filter=f(%zu)}\n", grp[i].c_str(), i + 1); c += "add_sub{topic=\"#\", filter=f(100)}\n";
        start(conf(c), {}); pass(1000);
        for (auto &tp : T) {
            snprintf(cur_scn, sizeof cur_scn, "filters-%zu", g / per); int want = 100; for (size_t i = 0; i < grp.size(); i++) if (match(grp[i], tp)) { want = (int)i + 1; break; }
            *nmarks = 0; if (!deliver(tp, txt("x y"))) violation("subscribe", "not subscribed to #"); auto nm = [&](int k) { return k == 100 ? string("#") : grp[(size_t)k - 1]; };
            if (*nmarks != 1) violation("match", "%d subscriptions get the message on topic \"%s\", expected: %s", *nmarks, tp.c_str(), nm(want).c_str()); if (marks[0].id != want) violation("match", "the message on topic \"%s\" goes to subscription \"%s\" instead of \"%s\"", tp.c_str(), nm(marks[0].id).c_str(), nm(want).c_str());
            if (marks[0].t != tp + " x y") violation("match", "the filter is called with \"%s\"", marks[0].t); alive(); S->transitions++; S->checks++; pet();
        }
        S->histories++;
    });
}
// ---- many subscriptions and publishers; raw payloads of every size; qos and retained; configuration
static void many() {
    static int N; for (int n : thorough() ? vector<int>{15, 16, 17, 31, 32, 33, 40} : vector<int>{16, 17, 33, 40}) forked(sfmt("many-%d", n), [=]() {
        N = n; mload(); int v = tag("v", DAX_INT, 1), w[64]; for (int i = 0; i < N; i++) w[i] = tag(sfmt("w%d", i), DAX_INT, 1); (void)v; string c; for (int i = 0; i < N; i++) c += sfmt("add_sub{topic=\"s%d\", tags=\"w%d\", qos=%d}\n", i, i, i % 3); for (int i = 0; i < N; i++) c += sfmt("add_pub{topic=\"p%d\", tags=\"w%d\", qos=%d, retained=%s}\n", i, i, i % 3, i % 2 ? "true" : "false");
        start(conf(c), {}); pass(2000); if (*nsubs != N) violation("subscribe", "%d subscriptions of %d", *nsubs, N); if (string(user_) != "(null)" || string(pass_) != "(null)") violation("connect", "user name %s, password %s are given to the broker, none is configured", user_, pass_);
        for (int i = 0; i < N; i++) { *npubs = 0; if (!deliver(sfmt("s%d", i), i2(1000 + i))) violation("subscribe", "s%d is not subscribed", i); if (get(w[i], 0, 2) != i2(1000 + i)) violation("tag", "the message on s%d does not reach its tag", i); if (*npubs != 1 || string(pubs[0].topic) != sfmt("p%d", i) || pubs[0].qos != i % 3 || (pubs[0].retained != 0) != (i % 2 != 0) || pubs[0].len != 2 || hex(pubs[0].d, 2) != hex(i2(1000 + i).data(), 2)) violation("publish", "writing w%d publishes %d messages, first on %s", i, *npubs, pubs[0].topic); if (subs[i].qos != i % 3) violation("subscribe", "qos %d", subs[i].qos); alive(); S->transitions++; S->checks++; }
        stop(); S->histories++;
    });
}
static void sizes() {
    struct K { const char *n; uint32_t ty, c; int sz; }; static const vector<K> ks = {{"b1", DAX_BOOL, 1, 1}, {"b12", DAX_BOOL, 12, 2}, {"by3", DAX_BYTE, 3, 3}, {"i", DAX_INT, 1, 2}, {"d", DAX_DINT, 1, 4}, {"l2", DAX_LINT, 2, 16}, {"f", DAX_REAL, 1, 4}, {"c7", DAX_CHAR, 7, 7}};
    for (int grp = 0; grp < 2; grp++) for (auto &k : ks) forked(sfmt("payload-%s%s", k.n, grp ? "-group" : ""), [=, &k]() {
        mload(); int i1 = tag(k.n, k.ty, k.c), i2_ = tag("z", DAX_INT, 1), pad = tag("pad", DAX_BYTE, 8); put(pad, Bytes(8, 0x77));
        start(conf(grp ? sfmt("add_sub{topic=\"s\", tags={\"%s\", \"z\"}}\nadd_pub{topic=\"p\", tags={\"z\", \"%s\"}, trigger_tag=\"pad\"}\n", k.n, k.n) : sfmt("add_sub{topic=\"s\", tags=\"%s\"}\nadd_pub{topic=\"p\", tags={\"%s\"}, trigger_tag=\"pad\"}\n", k.n, k.n)), {}); pass(2000);
        int total = k.sz + (grp ? 2 : 0); for (int n = 0; n <= total + 3; n++) {
            *npubs = 0; Bytes d; for (int j = 0; j < n; j++) d.push_back((uint8_t)(0x21 + j * 7 + n)); if (k.ty == DAX_BOOL && n) { int bits = (int)k.c; for (int j = 0; j < (int)d.size() && j < k.sz; j++) for (int q = 0; q < 8; q++) if (j * 8 + q >= bits) d[(size_t)j] = (uint8_t)(d[(size_t)j] & ~(1 << q)); }
            if (!deliver("s", d)) violation("subscribe", "not subscribed"); Bytes g = get(i1, 0, (uint32_t)k.sz); if (grp) g = cat(g, get(i2_, 0, 2)); for (int j = 0; j < n && j < total; j++) if (g[(size_t)j] != d[(size_t)j]) violation("tag", "payload of %d bytes: byte %d of the tags is %02x instead of %02x", n, j, g[(size_t)j], d[(size_t)j]); if (get(pad, 0, 8) != Bytes(8, 0x77)) violation("tag", "another tag changes");
            put(pad, Bytes(8, 0x77)); Bytes w = grp ? cat(get(i2_, 0, 2), get(i1, 0, (uint32_t)k.sz)) : g; if (*npubs != 1 || pubs[0].len != (int)w.size() || hex(pubs[0].d, w.size()) != hex(w.data(), w.size())) violation("publish", "%d messages, first %s instead of %s", *npubs, hex(pubs[0].d, (size_t)pubs[0].len).c_str(), hex(w.data(), w.size()).c_str()); alive(); S->transitions++; S->checks++;
        }
        S->histories++;
    });
}
static void broken() {                       // subscriptions and publishers that can never work leave the others alone
    forked("unusable", [=]() {
        mload(); int r = tag("r", DAX_INT, 1); (void)tag("big", DAX_INT, 2);
        start(conf("add_sub{topic=\"+\", tags=\"nosuch\"}\nadd_sub{topic=\"x1\"}\nadd_sub{topic=\"x2\", tags=\"nosuch\"}\nadd_sub{topic=\"x3\", tags={\"r\", \"nosuch\"}}\nadd_sub{topic=\"ok\", tags=\"r\"}\nadd_pub{topic=\"y1\", trigger_tag=\"r\"}\nadd_pub{topic=\"y2\", tags=\"nosuch\"}\nadd_pub{topic=\"y3\", tags={\"r\", \"nosuch\"}, trigger_tag=\"r\"}\nadd_pub{topic=\"y4\", tags=\"r\", trigger_tag=\"nosuch\"}\nadd_pub{topic=\"y5\", tags={\"r\",\"big\"}, trigger_tag=\"big\", trigger_type=EQUAL, trigger_value=\"3\"}\nadd_pub{topic=\"ok\", tags=\"r\"}\nadd_pub{topic=\"y6\", tags=\"r\", trigger_tag=\"r\", filter=function() error(\"x\") end}\n"), {}); pass(12000);
        for (int i = 1; i < 4; i++) { *npubs = 0; if (!deliver("ok", i2(i))) violation("subscribe", "not subscribed to ok"); if (get(r, 0, 2) != i2(i)) violation("tag", "the message does not reach its tag"); int n = 0; for (int k = 0; k < *npubs; k++) { if (string(pubs[k].topic) != "ok") violation("publish", "publication on %s", pubs[k].topic); n++; } if (n != 1) violation("publish", "%d publications", n); deliver("x1", i2(9)); alive(); pass(6000); S->transitions++; S->checks++; }
        stop(); S->histories++;
    });
    forked("no-broker", [=]() { mload(); *up = 0; (void)tag("r", DAX_INT, 1); start(conf("add_sub{topic=\"ok\", tags=\"r\", qos=1}\n"), {}); pass(8000); if (!running()) violation("died", "the module ends without a broker"); pass(300000); *up = 1; for (int k = 0; k < 45 && !*connected; k++) pass(1000); if (!*connected) violation("reconnect", "no connection 45 s after the broker is up"); pass(6000); if (*nsubs != 1 || subs[0].qos != 1) violation("subscribe", "not subscribed"); stop(); S->histories++; });
}
// ---- schedules
static void schedules() {
    static int r, o, t, m1, m2; int pre = thorough() ? 3 : 2;
    auto setup = [] { after_load(); r = tag("r", DAX_INT, 1); o = tag("o", DAX_INT, 1); t = tag("t", DAX_INT, 1); m1 = tag("m1", DAX_INT, 1); m2 = tag("m2", DAX_INT, 1); };
    { Scn s; s.name = "retained"; prog = P; s.from_start = true; s.pre = pre; s.settle = 7000; s.setup = [=] { setup(); *hasret = 1; snprintf(ret_->topic, 64, "r"); ret_->len = 2; ret_->d[0] = 0x34; ret_->d[1] = 0x12; }; s.conf = conf("add_sub{topic=\"o\", tags=\"o\"}\nadd_sub{topic=\"r\", tags=\"r\", qos=1}\n"); s.final = [] { alive(); if (get(r, 0, 2) != i2(0x1234)) violation("lost", "the retained message that the broker sends on subscription does not reach its tag"); }; run(s); }
    { Scn s; s.name = "lost-connection"; prog = P; s.from_start = true; s.pre = pre; s.settle = 12000; s.setup = setup; s.conf = conf("add_sub{topic=\"r\", tags=\"r\"}\nadd_sub{topic=\"o\", tags=\"o\", qos=1}\n"); s.foreign.push_back([] { lose(false); }); s.names.push_back("the connection to the broker is lost");
      s.final = [] { if (!*connected) violation("reconnect", "not connected 12 s after the connection was lost"); for (int k = 0; k < 2; k++) { if (!deliver(k ? "o" : "r", i2(77 + k))) violation("subscribe", "not subscribed to %s after the connection was lost", k ? "o" : "r"); if (get(k ? o : r, 0, 2) != i2(77 + k)) violation("tag", "the message does not reach its tag"); } alive(); }; run(s); }
    { Scn s; s.name = "message-trigger"; prog = P; s.pre = pre + 1; s.setup = setup; s.conf = conf("add_sub{topic=\"r\", tags={\"m1\",\"m2\"}, filter=function(t,p) local a=#p; local b=tag_read(\"o\"); return {a+b, b} end}\nadd_pub{topic=\"p\", tags={\"o\",\"r\"}, trigger_tag=\"t\", filter=function(t,v) local a=v[1]; local b=tag_read(\"t\"); return a..\",\"..v[2]..\",\"..b end}\n");
      s.ready = [] { pass(2000); put(o, i2(5)); put(r, i2(6)); }; s.foreign.push_back([] { deliver("r", txt("abc"), false); }); s.names.push_back("message"); s.foreign.push_back([] { send(t, i2(9)); }); s.names.push_back("write t");
      s.final = [] { alive(); if (get(m1, 0, 2) != i2(8) || get(m2, 0, 2) != i2(5)) violation("tag", "m1 = %d and m2 = %d after the message, expected 8 and 5", num(get(m1, 0, 2)), num(get(m2, 0, 2))); if (*npubs != 1 || string((char *)pubs[0].d, (size_t)pubs[0].len) != "5,6,9") violation("publish", "%d publications, first \"%.*s\" instead of \"5,6,9\"", *npubs, pubs[0].len, pubs[0].d); }; run(s); }
}
static void f() { histories("histories", thorough() ? 4 : 3, false); histories("long", thorough() ? 6 : 5, true); filters(); many(); sizes(); broken(); schedules(); }
static Reg r29("C29", f, "every sequence up to the depth of messages for every kind of subscription (raw, group, filters with one, several and no tags, results that are partial, missing, of the wrong kind or errors), of writes that trigger publishers or not, of late creation of tags and of losses of the broker connection, followed by SIGTERM; every topic filter of up to three levels against every topic; 15 to 40 subscriptions and publishers; payloads of every size; every schedule (preemption bounded) of a retained message, of a lost connection while starting and of a message during a publication");
