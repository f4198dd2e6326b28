// C20: the Modbus slave/server answers every request as the standard prescribes
#include "mb.h"
using namespace mbx;
enum { HOLD, INPUT, COIL, DISC }; static const char *spn[] = {"HOLDING", "INPUT", "COIL", "DISCRETE"};
struct Space { int node, sp; string name; int n; Tag t; };
static std::vector<Space> spaces; static Tag sentinel; static bool serial; static const int PORT = 5502;
struct SM { std::vector<Bytes> d; int c[3] = {-1, -1, -1}; Bytes part[3]; int ord[3] = {0, 0, 0}, nord = 0; std::vector<bool> gone; uint64_t hash() const { uint64_t h = 7; for (auto &x : d) for (auto b : x) h = h * 131 + b; for (int i = 0; i < 3; i++) { h = h * 31 + (uint64_t)(c[i] + 1); for (auto b : part[i]) h = h * 137 + b; } for (bool b : gone) h = h * 3 + b; for (int i = 0; i < 3; i++) for (int j = 0; j < i; j++) h = h * 5 + (c[i] < 0 || c[j] < 0 ? 2 : ord[i] > ord[j]); return h; } };
static Bytes fill(size_t n, int seed) { Bytes r(n); for (size_t i = 0; i < n; i++) r[i] = (uint8_t)(seed + i * 41 + (i >> 8) * 7); return r; }
static Space *sp_of(int node, int sp) { for (auto &s : spaces) if (s.node == node && s.sp == sp) return &s; return nullptr; }
static bool node_known(int n) { for (auto &s : spaces) if (s.node == n) return true; return false; }
static bool bit(const Bytes &d, int i) { return d[(size_t)i / 8] >> (i % 8) & 1; }
static void setbit(Bytes &d, int i, bool v) { if (v) d[(size_t)i / 8] |= (uint8_t)(1 << i % 8); else d[(size_t)i / 8] &= (uint8_t) ~(1 << i % 8); }
struct Exp { bool silent = false; std::vector<int> exc; Bytes ok; bool maybe_ok = false; std::function<void()> apply; };   // exc: allowed exception codes; ok: reply otherwise
// what the standard says about the request unit+pdu
static Exp expect(SM &m, const Bytes &a) {
    Exp e; if (a.size() < 2) { e.silent = true; return e; }
    int node = a[0]; if (node >= 248 || !node_known(node)) { if (!node_known(0)) { e.silent = true; return e; } node = 0; }
    int fc = a[1]; static const int spf[] = {-1, COIL, DISC, HOLD, INPUT, COIL, HOLD}; int sp = fc >= 1 && fc <= 6 ? spf[fc] : fc == 15 ? COIL : fc == 16 ? HOLD : -1;
    if (fc == 8 && serial) { if (a.size() < 6) { e.exc = {3}; return e; } if (a[2] || a[3]) { e.exc = {1, 3}; return e; } e.ok = a; return e; }
    Space *s = sp < 0 ? nullptr : sp_of(node, sp); if (!s) { e.exc = {1}; return e; }
    if (a.size() < 6) { e.exc = {3}; return e; }
    size_t si = (size_t)(s - spaces.data()); int addr = a[2] << 8 | a[3], q = a[4] << 8 | a[5]; bool words = sp == HOLD || sp == INPUT; size_t len = 6;
    if (fc <= 4) { if (q < 1 || q > (words ? 125 : 2000)) e.exc.push_back(3); if (addr + q > s->n) e.exc.push_back(2); }
    else if (fc == 5) { if (q != 0 && q != 0xFF00) e.exc.push_back(3); if (addr >= s->n) e.exc.push_back(2); }
    else if (fc == 6) { if (addr >= s->n) e.exc.push_back(2); }
    else { if (q < 1 || q > (words ? 123 : 1968)) e.exc.push_back(3); if (addr + q > s->n) e.exc.push_back(2); int bc = words ? q * 2 : (q + 7) / 8; if (a.size() < 7 || a[6] != (bc & 0xff) || bc > 255 || (int)a.size() < 7 + a[6]) e.exc.push_back(3); len = a.size() < 7 ? 7 : 7 + (size_t)a[6]; }
    if (!e.exc.empty()) return e;
    if (a.size() > len) { e.exc = {3}; e.maybe_ok = true; }
    if (m.gone[si]) { e.exc = {4, 2}; e.maybe_ok = false; return e; }
    Bytes &d = m.d[si];
    if (fc <= 4) { Bytes o; if (words) for (int i = 0; i < q; i++) { o.push_back(d[(size_t)(addr + i) * 2 + 1]); o.push_back(d[(size_t)(addr + i) * 2]); } else { o.assign((size_t)(q + 7) / 8, 0); for (int i = 0; i < q; i++) setbit(o, i, bit(d, addr + i)); } e.ok = cat(by({a[0], fc, (int)o.size()}), o); return e; }
    e.ok = Bytes(a.begin(), a.begin() + 6);
    Bytes req = a; e.apply = [=, &m]() { Bytes &d = m.d[si]; if (fc == 5) setbit(d, addr, q != 0); else if (fc == 6) { d[(size_t)addr * 2] = req[5]; d[(size_t)addr * 2 + 1] = req[4]; } else for (int i = 0; i < q; i++) { if (words) { d[(size_t)(addr + i) * 2] = req[8 + (size_t)i * 2]; d[(size_t)(addr + i) * 2 + 1] = req[7 + (size_t)i * 2]; } else setbit(d, addr + i, req[7 + (size_t)i / 8] >> (i % 8) & 1); } };
    return e;
}
static string hx(const Bytes &b) { return b.size() > 40 ? srv::hex(Bytes(b.begin(), b.begin() + 40)) + sfmt("...(%zu bytes)", b.size()) : srv::hex(b); }
static void judge(SM &m, const Bytes &adu, const Exp &e, bool have, const Bytes &r) {
    S->checks++;
    if (e.silent) { if (have) violation("reply", "the request %s, which is not for us, was answered with %s", hx(adu).c_str(), hx(r).c_str()); return; }
    if (!have) violation("no-reply", "the request %s was not answered", hx(adu).c_str());
    if (r.size() == 3 && r[0] == adu[0] && r[1] == (adu[1] | 0x80)) {
        for (int c : e.exc) if (c == r[2]) { outcome(0x100u + r[2]); return; }
        violation("reply", "the request %s was refused with exception %d, expected %s", hx(adu).c_str(), r[2], e.exc.empty() ? ("the reply " + hx(e.ok)).c_str() : sfmt("exception %d", e.exc[0]).c_str());
    }
    if (!e.exc.empty() && !e.maybe_ok) violation("reply", "the request %s was answered with %s, expected exception %d", hx(adu).c_str(), hx(r).c_str(), e.exc[0]);
    if (r != e.ok) violation("reply", "the request %s was answered with %s, expected %s", hx(adu).c_str(), hx(r).c_str(), hx(e.ok).c_str());
    outcome(adu[1]); if (e.apply) e.apply();
}
static void sweep(SM &m) {
    for (size_t i = 0; i < spaces.size(); i++) { if (m.gone[i]) continue; Bytes g = get(spaces[i].t); Bytes w = m.d[i]; S->checks++;
        if (spaces[i].sp >= COIL && spaces[i].n % 8) { uint8_t k = (uint8_t)((1 << spaces[i].n % 8) - 1); g.back() &= k; w.back() &= k; }
        if (g != w) { size_t p = 0; while (g[p] == w[p]) p++; violation("registers", "the %s registers of node %d differ at byte %zu: 0x%02x, expected 0x%02x", spn[spaces[i].sp], spaces[i].node, p, g[p], w[p]); } }
    if (get(sentinel) != fill(sentinel.size, 99)) violation("registers", "a tag that is no register was changed");
}
// ---- transport
static std::vector<Bytes> replies(int c, bool &bad) { std::vector<Bytes> v; Bytes b = take(c); size_t p = 0; bad = false; while (p < b.size()) { if (b.size() - p < 8) { bad = true; break; } size_t l = (size_t)b[p + 4] << 8 | b[p + 5]; if (b[p + 2] || b[p + 3] || p + 6 + l > b.size()) { bad = true; break; } v.push_back(Bytes(b.begin() + (long)p, b.begin() + (long)(p + 6 + l))); p += 6 + l; } if (bad) violation("reply", "malformed reply stream %s", hx(b).c_str()); return v; }
static void rtu_send(SM &m, const Bytes &frame, const Bytes *adu, std::vector<size_t> cuts = {}) {
    int c = rt::serial_conn(); if (c < 0) violation("port", "the serial port is not open");
    Exp e; if (adu) e = expect(m, *adu); else e.silent = true;
    size_t p = 0; for (size_t k : cuts) { rt::net_send(c, frame.data() + p, k - p); p = k; idle(); }
    rt::net_send(c, frame.data() + p, frame.size() - p);
    until([&]() { return rt::net_avail(c) > 0; }, 100); Bytes r = take(c);
    if (r.size() && (r.size() < 5 || rtu(Bytes(r.begin(), r.end() - 2)) != r)) violation("reply", "the reply %s has a wrong checksum", hx(r).c_str());
    Bytes body; if (r.size()) body.assign(r.begin(), r.end() - 2);
    judge(m, adu ? *adu : frame, e, r.size() > 0, body);
    until(nullptr, 30); Bytes x = take(rt::serial_conn()); if (x.size()) violation("reply", "an additional reply %s", hx(x).c_str());
}
static void tcp_send(SM &m, int k, const std::vector<Bytes> &adus, std::vector<size_t> cuts = {}) {
    int c = m.c[k]; Bytes all; int tid = 0x1234; for (auto &a : adus) all = cat(all, tcp(tid++, a));
    size_t p = 0; for (size_t x : cuts) { rt::net_send(c, all.data() + p, x - p); p = x; idle(); }
    rt::net_send(c, all.data() + p, all.size() - p); idle(); bool bad; auto v = replies(c, bad); size_t i = 0; tid = 0x1234;
    for (auto &a : adus) { Exp e = expect(m, a); bool have = i < v.size() && (v[i][0] << 8 | v[i][1]) == tid; Bytes r; if (have) r.assign(v[i].begin() + 6, v[i].end()); judge(m, a, e, have, r); if (have) i++; tid++; }
    if (i < v.size()) violation("reply", "an additional reply %s", hx(v[i]).c_str());
    if (rt::net_server_closed(c)) violation("closed", "the connection was closed after the request %s", hx(all).c_str());
}
static void send1(SM &m, const Bytes &adu) { if (serial) rtu_send(m, rtu(adu), &adu); else tcp_send(m, 0, {adu}); }
static SM setup(const string &cfg, const std::vector<Space> &sp, const string &extra = "") {
    load(); spaces = sp; serial = cfg == "RTU"; sentinel = newtag("aa_sentinel", DAX_BYTE, 16); put(sentinel, fill(16, 99));
    string c = serial ? "p = add_port({name=\"s\", enable=true, protocol=\"RTU\", type=\"SLAVE\", device=\"/dev/mcser0\", baudrate=9600, databits=8, stopbits=1, parity=\"NONE\", frame=10, timeout=1000, retries=1})\n" : sfmt("p = add_port({name=\"s\", enable=true, protocol=\"TCP\", type=\"SERVER\", ipaddress=\"127.0.0.1\", bindport=%d, socket=\"TCP\", timeout=1000, retries=1})\n", PORT);
    for (auto &s : spaces) c += sfmt("add_register(p, %d, \"%s\", %d, %s)\n", s.node, s.name.c_str(), s.n, spn[s.sp]);
    start(c + extra); SM m;
    for (auto &s : spaces) { s.t = tag(s.name); if (s.t.idx < 0) violation("port", "the register tag %s does not exist", s.name.c_str()); Bytes d = fill(s.t.size, 3 * s.node + 50 * s.sp); put(s.t, d); m.d.push_back(d); m.gone.push_back(false); }
    if (!serial) { if (!rt::net_listening(PORT)) violation("port", "the server port is not listening"); m.c[0] = rt::net_connect(PORT); idle(); }
    return m;
}
static std::vector<Space> small(bool def = false) { std::vector<Space> v = {{1, HOLD, "h1", 10, {}}, {1, INPUT, "i1", 7, {}}, {1, COIL, "c1", 20, {}}, {1, DISC, "d1", 17, {}}, {5, COIL, "c5", 9, {}}, {9, HOLD, "h9", 3, {}}, {247, INPUT, "i247", 2, {}}}; if (def) { v.push_back({0, HOLD, "h0", 5, {}}); v.push_back({0, DISC, "d0", 5, {}}); } return v; }
static std::vector<Space> large() { return {{1, HOLD, "h1", 65535, {}}, {1, INPUT, "i1", 65535, {}}, {1, COIL, "c1", 65535, {}}, {1, DISC, "d1", 65535, {}}, {2, HOLD, "h2", 130, {}}, {2, COIL, "c2", 2001, {}}, {2, DISC, "d2", 2000, {}}, {2, INPUT, "i2", 125, {}}}; }
static Bytes req(int u, int fc, int a, int q) { return cat(by({u, fc}), be({a, q})); }
static Bytes wreq(int u, int fc, int a, int q, int bc, int have, int seed) { return cat(cat(req(u, fc, a, q), by({bc})), fill((size_t)have, seed)); }
typedef Explorer<SM> X;
static void addreq(X &x, const Bytes &a) { x.add("request " + hx(a), [=](SM &m) { send1(m, a); }); }
static void all_requests(X &x, const std::vector<int> &units, const std::vector<Space> &sps, bool big) {
    for (int u : units) for (int fc : {1, 2, 3, 4, 5, 6, 15, 16}) {
        int sp = fc == 1 || fc == 5 || fc == 15 ? COIL : fc == 2 ? DISC : fc == 4 ? INPUT : HOLD; int n = 0; for (auto &s : sps) if (s.node == u && s.sp == sp) n = s.n; bool words = sp == HOLD || sp == INPUT; int mx = fc <= 4 ? (words ? 125 : 2000) : (words ? 123 : 1968);
        if (!n) { addreq(x, req(u, fc, 0, 1)); addreq(x, wreq(u, fc, 0, 1, fc == 16 ? 2 : 1, fc == 16 ? 2 : 1, 5)); continue; }
        std::set<int> A = {0, 1, n - 1, n, n + 1, 0x7fff, 0x8000, 0xffff}; for (int k : {2, 3, 7, 8, 9, 15, 16, 17}) if (k < n) A.insert(k); if (big) for (int k : {255, 256, n - 2, n - 7, n - 8, n - 9, n - mx, n - mx - 1, n - mx + 1}) if (k >= 0) A.insert(k);
        std::set<int> B; if (!big) for (int k = 0; k < n; k++) B.insert(k); B.insert(A.begin(), A.end());
        for (int a : B) { std::set<int> Q;
            if (fc == 5 || fc == 6) Q = {0, 1, 0xff, 0x100, 0xff00, 0xff01, 0xfeff, 0xffff, 0x8000, 0x1234};
            else { Q = {0, 1, 2, 3, 7, 8, 9, 15, 16, 17, n - a - 1, n - a, n - a + 1, mx - 1, mx, mx + 1, mx + 8, 255, 256, 0x7fff, 0x8000, 0xffff, 65536 - a, 65535 - a}; if (!big) for (int k = 1; k <= n; k++) Q.insert(k); }
            for (int q : Q) { if (q < 0 || q > 0xffff) continue; if (fc <= 6) { addreq(x, req(u, fc, a, q)); continue; }
                int bc = words ? q * 2 : (q + 7) / 8; bool can = bc <= 246; int b = can ? bc : bc & 0xff;
                addreq(x, wreq(u, fc, a, q, b, can ? b : 240, 11 + q)); if (can && bc && bc < 240) addreq(x, wreq(u, fc, a, q, b, b, 200 + a * 3));
                if (big && q > 17 && a != 0 && a != n - q) continue;
                if (b) { addreq(x, wreq(u, fc, a, q, b, (can ? b : 240) - 1, 3)); addreq(x, wreq(u, fc, a, q, b, 0, 3)); } if (can) { addreq(x, wreq(u, fc, a, q, b, b + 1, 4)); addreq(x, wreq(u, fc, a, q, (b + 1) & 0xff, b < 240 ? b + 1 : b, 5)); if (b) addreq(x, wreq(u, fc, a, q, b - 1, b - 1, 5)); addreq(x, wreq(u, fc, a, q, 255, 240, 6)); addreq(x, wreq(u, fc, a, q, 0, b, 6)); } }
        }
    }
}
static void shapes(X &x) {                                    // every function code and unit, every short length
    for (int fc = 0; fc < 256; fc++) { for (int u : {1, 5}) { addreq(x, req(u, fc, 0, 1)); } addreq(x, by({1, fc})); addreq(x, wreq(1, fc, 1, 2, 4, 4, 9)); }
    for (int u = 0; u < 256; u++) for (int fc : {3, 2, 5, 16}) addreq(x, fc == 16 ? wreq(u, fc, 0, 1, 2, 2, 7) : req(u, fc, 0, fc == 5 ? 0xff00 : 1));
    for (int fc : {1, 2, 3, 4, 5, 6, 8, 15, 16, 99}) { Bytes f = wreq(1, fc, 0, 3, fc == 16 ? 6 : 1, fc == 16 ? 6 : 1, 21); for (size_t n = serial ? 0 : 1; n <= f.size() + 3; n++) { Bytes g = f; g.resize(n, 0x55); addreq(x, g); } for (int n : {100, 200, 252, 253, 254}) { Bytes g = f; g.resize((size_t)n, 0); addreq(x, g); } }
    for (int sf : {0, 1, 2, 10, 0xff, 0x100, 0xffff}) for (int d : {0, 0xa5a5, 0xffff}) addreq(x, req(1, 8, sf, d));
}
static void sequences(X &x) {
    for (auto &a : std::vector<Bytes>{req(1, 3, 0, 10), req(1, 1, 3, 14), req(1, 2, 0, 17), req(1, 4, 6, 1), req(1, 5, 9, 0xff00), req(1, 5, 9, 0), req(1, 6, 9, 0x0102), wreq(1, 15, 5, 11, 2, 2, 0x5a), wreq(1, 16, 2, 3, 6, 6, 0x31), req(1, 3, 9, 2), req(1, 7, 0, 0), wreq(5, 15, 0, 9, 2, 2, 0xf1), wreq(9, 16, 0, 3, 6, 6, 0x77), req(1, 6, 10, 1), wreq(1, 16, 0, 124, 248, 240, 1), req(77, 3, 0, 1)}) addreq(x, a);
    x.add("a module writes h1", [](SM &m) { Bytes d = fill(m.d[0].size(), m.d[0][0] + 1); put(spaces[0].t, d); m.d[0] = d; }, [](const SM &m) { return !m.gone[0]; });
    x.add("tag h1 is deleted", [](SM &m) { srv::tag_del(wire, spaces[0].t.idx); m.gone[0] = true; }, [](const SM &m) { return !m.gone[0]; });
    if (serial) {
        x.add("bad checksum", [](SM &m) { Bytes f = rtu(req(1, 6, 1, 0x4321)); f.back() ^= 1; rtu_send(m, f, nullptr); });
        x.add("noise", [](SM &m) { rtu_send(m, by({0x01}), nullptr); rtu_send(m, by({0xff, 0xff}), nullptr); });
        x.add("300 bytes of noise", [](SM &m) { Bytes f = fill(300, 1); f[299] = 0; int c = rt::serial_conn(); rt::net_send(c, f.data(), f.size()); until(nullptr, 200); take(c); });
    }
}
static void connections(X &x) {                               // three clients of one port; none may disturb another
    for (int k = 0; k < 3; k++) {
        static const char *nm[] = {"first", "second", "third"}; string n = string(nm[k]) + " client "; Bytes half = req(1, 6, 1 + k, 0x7788 + 0x101 * k);
        auto idle_ = [=](const SM &m) { return m.c[k] >= 0 && m.part[k].empty(); };
        x.add(n + "connects", [=](SM &m) { m.c[k] = rt::net_connect(PORT); m.ord[k] = ++m.nord; idle(); }, [=](const SM &m) { return m.c[k] < 0; });
        x.add(n + "writes and reads", [=](SM &m) { tcp_send(m, k, {wreq(1, 16, 0, 1, 2, 2, 0x44 + k), req(1, 3, 0, 6), req(1, 99, 0, 0), req(1, 1, 0, 20)}); }, idle_);
        for (int at : {3, 9}) x.add(n + sfmt("sends the first %d bytes of a request", at), [=](SM &m) { Bytes f = tcp(7, half); f.resize((size_t)at); rt::net_send(m.c[k], f.data(), f.size()); idle(); m.part[k] = f; if (rt::net_avail(m.c[k])) violation("reply", "a reply to an incomplete request"); }, idle_);
        x.add(n + "sends the rest", [=](SM &m) { Bytes f = tcp(7, half); size_t at = m.part[k].size(); rt::net_send(m.c[k], f.data() + at, f.size() - at); idle(); m.part[k].clear(); bool bad; auto v = replies(m.c[k], bad); Exp e = expect(m, half); judge(m, half, e, v.size() == 1, v.empty() ? Bytes() : Bytes(v[0].begin() + 6, v[0].end())); if (v.size() > 1) violation("reply", "%zu replies to one request", v.size()); }, [=](const SM &m) { return m.c[k] >= 0 && !m.part[k].empty(); });
        x.add(n + "disconnects", [=](SM &m) { rt::net_close(m.c[k]); m.c[k] = -1; m.part[k].clear(); idle(); }, [=](const SM &m) { return m.c[k] >= 0; });
        x.add(n + "sends an impossible length", [=](SM &m) { Bytes f = tcp(7, fill(260, 1), 255); rt::net_send(m.c[k], f.data(), f.size()); idle(); take(m.c[k]); rt::net_close(m.c[k]); idle(); m.c[k] = -1; }, idle_);
    }
}
static void delivery(X &x) {                                  // portions and pipelines
    std::vector<Bytes> R = {req(1, 3, 0, 2), wreq(1, 16, 1, 2, 4, 4, 0x61), req(1, 5, 2, 0xff00), wreq(1, 15, 3, 10, 2, 2, 0xc3), req(1, 99, 0, 0), req(1, 3, 200, 1), req(77, 3, 0, 1)};
    for (auto &a : R) { Bytes f = serial ? rtu(a) : tcp(1, a); size_t n = f.size();
        if (serial) { for (size_t i = 1; i < n; i++) x.add(sfmt("%s split at %zu", hx(a).c_str(), i), [=](SM &m) { rtu_send(m, rtu(a), &a, {i}); }); }
        else { for (size_t i = 1; i < n; i++) { x.add(sfmt("%s split at %zu", hx(a).c_str(), i), [=](SM &m) { tcp_send(m, 0, {a}, {i}); }); for (size_t j = i + 1; j < n; j++) x.add(sfmt("%s split at %zu and %zu", hx(a).c_str(), i, j), [=](SM &m) { tcp_send(m, 0, {a}, {i, j}); }); }
            x.add(hx(a) + " byte by byte", [=](SM &m) { std::vector<size_t> c; for (size_t i = 1; i < n; i++) c.push_back(i); tcp_send(m, 0, {a}, c); });
            for (auto &b : R) { size_t t = n + tcp(1, b).size(); x.add(hx(a) + " and " + hx(b) + " at once", [=](SM &m) { tcp_send(m, 0, {a, b}); }); for (size_t i = 1; i < t; i++) x.add(sfmt("%s and %s, split at %zu", hx(a).c_str(), hx(b).c_str(), i), [=](SM &m) { tcp_send(m, 0, {a, b}, {i}); });
                for (auto &d : R) x.add(hx(a) + ", " + hx(b) + " and " + hx(d) + " at once", [=](SM &m) { tcp_send(m, 0, {a, b, d}); }); } } }
    if (!serial) { Bytes a = req(1, 3, 0, 5); std::vector<Bytes> v(21, a); x.add("21 requests at once", [=](SM &m) { tcp_send(m, 0, v); }); std::vector<Bytes> w; for (int i = 0; i < 5; i++) w.push_back(wreq(1, 16, i, 2, 4, 4, 3 * i)); w.push_back(a); for (size_t i = 1; i < 80; i++) x.add(sfmt("five writes and a read, split at %zu", i), [=](SM &m) { tcp_send(m, 0, w, {i}); });
        for (int l : {0, 1}) for (size_t i = 0; i < 3; i++) x.add(sfmt("length field %d", l), [=](SM &m) { Bytes f = tcp(9, fill((size_t)l, 1)); rt::net_send(m.c[0], f.data(), f.size()); idle(); if (rt::net_avail(m.c[0])) violation("reply", "an empty request was answered"); tcp_send(m, 0, {a}); });
        for (int l : {255, 256, 1000, 0x7fff, 0xffff}) x.add(sfmt("length field %d", l), [=](SM &m) { int c2 = rt::net_connect(PORT); idle(); Bytes f = tcp(9, fill(40, 1), l); rt::net_send(c2, f.data(), f.size()); idle(); Bytes g = fill(3000, 7); rt::net_send(c2, g.data(), g.size()); idle(); tcp_send(m, 0, {a}); rt::net_close(c2); idle(); tcp_send(m, 0, {a}); }); }
}
static void callbacks(const string &tr) { string nm = "callbacks-" + tr; run_forked(nm.c_str(), [=]() {
    string ex = "function rd(n, fc, reg, cnt) if reg == 5 then return 4 end if reg == 3 then tag_write(\"h1[3]\", 7777) end if reg == 2 then error(\"oops\") end return 0 end\nfunction wr(n, fc, reg, cnt) tag_write(\"cb\", {n, fc, reg, cnt}) if reg == 7 then return 6 end end\nadd_read_callback(p, 1, rd)\nadd_write_callback(p, 1, wr)\n";
    SM m = setup(tr, small(), ex); Tag cb = newtag("cb", DAX_DINT, 4); X x; x.name = nm; x.depth = thorough() ? 4 : 3; x.sweep = sweep;
    auto ok = [=](SM &s, const Bytes &a, int n) { Bytes z(16, 0); put(cb, z); send1(s, a); Bytes g = get(cb); Bytes w; for (int v : {(int)a[0], (int)a[1], a[2] << 8 | a[3], n}) { for (int i = 0; i < 4; i++) w.push_back((uint8_t)(v >> 8 * i)); } S->checks++; if (g != w) violation("callback", "after %s the write callback has recorded %s, expected %s", hx(a).c_str(), hx(g).c_str(), hx(w).c_str()); };
    for (auto &a : std::vector<Bytes>{req(1, 3, 0, 10), req(1, 4, 0, 2), req(1, 1, 1, 3), req(1, 2, 4, 9)}) addreq(x, a);
    x.add("read with an update by the callback", [](SM &s) { s.d[0][6] = 7777 & 0xff; s.d[0][7] = 7777 >> 8; send1(s, req(1, 3, 3, 2)); });
    x.add("read refused by the callback", [](SM &) { Bytes a = req(1, 4, 5, 1), r; if (serial) { Bytes f = rtu(a); int c = rt::serial_conn(); rt::net_send(c, f.data(), f.size()); until([&]() { return rt::net_avail(c) > 0; }, 100); r = take(c); until(nullptr, 30); if (r != rtu(by({1, 0x84, 4}))) violation("reply", "the callback refuses with 4, the reply is %s", hx(r).c_str()); } });
    x.add("read with a failing callback", [](SM &s) { send1(s, req(1, 3, 2, 1)); });
    struct W { Bytes a; int n; }; for (auto &w : std::vector<W>{{req(1, 5, 4, 0xff00), 1}, {req(1, 6, 6, 0x1122), 1}, {wreq(1, 15, 0, 12, 2, 2, 0x3c), 12}, {wreq(1, 16, 0, 5, 10, 10, 9), 5}}) x.add("write " + hx(w.a), [=](SM &s) { ok(s, w.a, w.n); });
    x.run(m); }); }
static void c20() {
    for (string tr : {"TCP", "RTU"}) {
        auto scn = [&](const char *n, const std::vector<Space> &sp, std::function<void(X &)> f, int depth) { string nm = tr + "-" + n; run_forked(nm.c_str(), [=]() { SM m = setup(tr, sp); X x; x.name = nm; x.depth = depth; x.sweep = sweep; f(x); x.run(m); }); };
        scn("requests", small(), [](X &x) { all_requests(x, {1, 5, 9, 247}, small(), false); }, 1);
        scn("shapes", small(), shapes, 1);
        scn("shapes-default-node", small(true), shapes, 1);
        scn("sequences", small(), sequences, thorough() ? 4 : 3);
        if (tr == "TCP") scn("connections", small(), connections, thorough() ? 7 : 5);
        scn("delivery", small(), delivery, 1);
        if (tr == "TCP" || thorough()) scn("large", large(), [](X &x) { all_requests(x, {1, 2}, large(), true); }, 1);
        callbacks(tr);
    }
}
static Reg r20("C20", c20, "every function code, unit and frame length, every combination of boundary addresses, quantities, byte counts and data lengths in all four register spaces (tiny, node-default and 65535 item ones), all deliveries in two portions and pipelines of two or three requests, and all sequences of requests, register changes, client connects/disconnects, partial and broken frames up to the depth bound, over TCP and RTU; every reply and all registers are compared with the standard's prescription");
