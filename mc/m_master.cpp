// C21: the Modbus master transfers exactly the configured data and survives any reply
#include "mb.h"
using namespace mbx;
struct Cd { int fc, node, reg, len; uint32_t type; int tcount; string tagspec, tagname; int count; int port; string mode = "CONTINUOUS"; string trig; int off = -1; bool enabled = true; int interval = 1; };   // tag type[tcount], command uses tagspec x count
static std::vector<Cd> cmds; static std::vector<Tag> tags; static bool rtu_; static int bitoff(const Cd &c) { size_t p = c.tagspec.find('['); return p == string::npos ? 0 : atoi(c.tagspec.c_str() + p + 1); }
static const int NODE = 17;
struct MM { std::vector<Bytes> data; std::vector<Cnt> cnt; std::map<int, int> conn; int pend = -1; int ptid = -1, pconn = -1; int64_t t = 0; std::vector<int> served; std::map<int, int> lasttid; std::map<int, Bytes> retry; Bytes req; bool dead = false; int sent = 0;
    uint64_t hash() const { uint64_t h = (uint64_t)(pend + 3); for (auto &d : data) for (auto b : d) h = h * 131 + b; for (auto &c : conn) h = h * 31 + (uint64_t)(c.second + 1); h = h * 31 + (uint64_t)(pconn + 1); for (auto b : req) h = h * 131 + b; for (auto &r : retry) { h = h * 31 + (uint64_t)r.first; for (auto b : r.second) h = h * 131 + b; } return h * 7 + dead; } };
static Bytes fill(size_t n, int seed) { Bytes r(n); for (size_t i = 0; i < n; i++) r[i] = (uint8_t)(seed + i * 41 + (i >> 8) * 7); return r; }
static bool bit(const Bytes &d, int i) { return d[(size_t)i / 8] >> (i % 8) & 1; }
static void setbit(Bytes &d, int i, bool v) { if (v) d[(size_t)i / 8] |= (uint8_t)(1 << i % 8); else d[(size_t)i / 8] &= (uint8_t) ~(1 << i % 8); }
static string hx(const Bytes &b) { return b.size() > 40 ? srv::hex(Bytes(b.begin(), b.begin() + 40)) + sfmt("...(%zu bytes)", b.size()) : srv::hex(b); }
static int esize(uint32_t t) { return TYPESIZE(t) / 8; }
static bool isread(int fc) { return fc <= 4; }
static size_t dsize(const Cd &c) { return c.fc <= 2 || c.fc == 15 ? (size_t)(c.len + 7) / 8 : c.fc == 5 ? 1 : c.fc == 6 ? 2 : (size_t)c.len * 2; }
// the part of the tag that takes part: bits or bytes
static int nbits(const Cd &c) { int n = (int)dsize(c) * 8; return c.count < n ? c.count : n; }
static int nbytes(const Cd &c) { int items = (int)dsize(c) / esize(c.type); return (c.count < items ? c.count : items) * esize(c.type); }
static Bytes cmddata(const Cd &c, const Bytes &tag) { Bytes d(dsize(c), 0); int o = bitoff(c); if (c.type == DAX_BOOL) { for (int i = 0; i < nbits(c); i++) setbit(d, i, bit(tag, o + i)); } else for (int i = 0; i < nbytes(c); i++) d[(size_t)i] = tag[(size_t)(o * esize(c.type) + i)]; return d; }
static void store(const Cd &c, Bytes &tag, const Bytes &d) { int o = bitoff(c); if (c.type == DAX_BOOL) { for (int i = 0; i < nbits(c); i++) setbit(tag, o + i, bit(d, i)); } else for (int i = 0; i < nbytes(c); i++) tag[(size_t)(o * esize(c.type) + i)] = d[(size_t)i]; }
static Bytes request(const Cd &c, const Bytes &tag) {
    Bytes d = cmddata(c, tag), r = cat(by({c.node, c.fc}), be({c.reg}));
    if (c.fc <= 4) return cat(r, be({c.len})); if (c.fc == 5) return cat(r, be({d[0] ? 0xff00 : 0})); if (c.fc == 6) return cat(r, by({d[1], d[0]}));
    r = cat(r, cat(be({c.len}), by({(int)d.size()}))); if (c.fc == 15) return cat(r, d); for (size_t i = 0; i < d.size(); i += 2) { r.push_back(d[i + 1]); r.push_back(d[i]); } return r;
}
static Bytes goodreply(const Cd &c, const Bytes &req, int seed, Bytes &d) {
    if (!isread(c.fc)) return Bytes(req.begin(), req.begin() + 6);
    d = fill(dsize(c), seed); if (c.fc <= 2 && c.len % 8) d.back() &= (uint8_t)((1 << c.len % 8) - 1);
    Bytes r = by({c.node, c.fc, (int)d.size()}); if (c.fc <= 2) return cat(r, d); for (size_t i = 0; i < d.size(); i += 2) { r.push_back(d[i + 1]); r.push_back(d[i]); } return r;
}
static std::vector<int> ports() { std::set<int> p; for (auto &c : cmds) p.insert(c.port); return {p.begin(), p.end()}; }
// has a complete request arrived?  fills pend
static bool look(MM &m) {
    if (m.pend >= 0) return true;
    if (rtu_) { int c = rt::serial_conn(); if (c < 0) return false; size_t n = rt::net_avail(c); if (!n) return false; Bytes f = take(c); if (f.size() < 5 || rtu(Bytes(f.begin(), f.end() - 2)) != f) violation("request", "the request %s has a wrong checksum", hx(f).c_str()); m.req.assign(f.begin(), f.end() - 2); m.pconn = c; }
    else { bool got = false; for (int p : ports()) { int nc; while ((nc = rt::net_ext_accept(p)) >= 0) { if (m.conn.count(p) && m.conn[p] >= 0) rt::net_close(m.conn[p]); m.conn[p] = nc; } if (!m.conn.count(p) || m.conn[p] < 0) continue; int c = m.conn[p]; size_t n = rt::net_avail(c); if (!n) continue;
            Bytes f = take(c); if (f.size() < 8 || f[2] || f[3] || (size_t)(f[4] << 8 | f[5]) + 6 != f.size()) violation("request", "malformed request frame %s", hx(f).c_str()); if (got) violation("request", "two requests at once"); got = true; m.ptid = f[0] << 8 | f[1]; m.pconn = c; m.req.assign(f.begin() + 6, f.end());
            if (m.lasttid.count(p) && m.lasttid[p] == m.ptid) violation("request", "the transaction id %d is used again", m.ptid); m.lasttid[p] = m.ptid;
            for (size_t i = 0; i < cmds.size(); i++) if (cmds[i].port == p && cmds[i].fc == m.req[1] && cmds[i].reg == (m.req[2] << 8 | m.req[3])) m.pend = (int)i; if (m.pend < 0) violation("request", "the request %s belongs to no command", hx(m.req).c_str()); }
        if (!got) return false; }
    if (rtu_) { for (size_t i = 0; i < cmds.size(); i++) if (cmds[i].fc == m.req[1] && cmds[i].reg == (m.req[2] << 8 | m.req[3])) m.pend = (int)i; if (m.pend < 0) violation("request", "the request %s belongs to no command", hx(m.req).c_str()); }
    const Cd &c = cmds[(size_t)m.pend]; Bytes w = request(c, m.data[(size_t)m.pend]); S->checks++;
    bool again = m.retry.count(m.pend) && m.req == m.retry[m.pend]; m.retry.erase(m.pend);   // the second attempt may repeat the first
    if (m.req != w && !again) violation("request", "the request is %s, the command and its tag say %s", hx(m.req).c_str(), hx(w).c_str());
    if (!c.enabled) violation("request", "the disabled command %d is sent", m.pend);
    m.sent++; return true;
}
static void next(MM &m) { if (m.dead) return; if (!until([&]() { return look(m); }, 5000)) violation("no-request", "no request is sent any more: %s", rt::describe_threads().c_str()); }
static void check(MM &m) { for (size_t i = 0; i < cmds.size(); i++) { Bytes g = get(tags[i]), w = m.data[i]; S->checks++; if (cmds[i].type == DAX_BOOL && cmds[i].tcount % 8) { uint8_t k = (uint8_t)((1 << cmds[i].tcount % 8) - 1); g.back() &= k; w.back() &= k; } if (g != w) { size_t p = 0; while (g[p] == w[p]) p++; violation("data", "the tag of command %zu differs at byte %zu: 0x%02x, expected 0x%02x", i, p, g[p], w[p]); } } }
enum Kind { K_OK, K_EXC, K_TMO, K_CRC, K_BAD, K_CLOSE };
static const char *kn[] = {"valid", "exception", "timeout", "checksum", "invalid", "closed"};
static void count(MM &m, size_t i, Kind k, int code, const char *what) {
    Cnt a = m.cnt[i], b = cmd(0, (int)i); m.cnt[i] = b; S->checks++; outcome((uint64_t)k * 1000 + (uint64_t)(code & 0xff));
    int dt = (int)(b.tmo - a.tmo), dc = (int)(b.crc - a.crc), de = (int)(b.exc - a.exc);
    if (k == K_OK && (b.last || dt || dc || de || b.resp != a.resp + 1)) violation("counters", "after a valid reply (%s): last error %u, timeouts +%d, checksum errors +%d, exceptions +%d, responses +%d", what, b.last, dt, dc, de, (int)(b.resp - a.resp));
    if (k == K_EXC && (de != 1 || dt || dc || b.last != (unsigned)(code | 0x80))) violation("counters", "after the exception %d (%s): last error %u, timeouts +%d, checksum errors +%d, exceptions +%d", code, what, b.last, dt, dc, de);
    if (k == K_TMO && (dt != 1 || dc || de || !b.last)) violation("counters", "after no reply (%s): last error %u, timeouts +%d, checksum errors +%d, exceptions +%d", what, b.last, dt, dc, de);
    if (k == K_CRC && (dc != 1 || dt || de || !b.last)) violation("counters", "after a bad checksum (%s): last error %u, timeouts +%d, checksum errors +%d, exceptions +%d", what, b.last, dt, dc, de);
    if ((k == K_BAD || k == K_CLOSE) && (!b.last || de)) violation("counters", "after an invalid reply (%s): last error %u, exceptions +%d", what, b.last, de);
}
struct Fault { string name; Kind k; int code = 0; std::function<void(MM &, const Bytes &good)> act; };
static void raw(MM &m, const Bytes &b) { rt::net_send(m.pconn, b.data(), b.size()); }
static Bytes wrap(MM &m, const Bytes &adu, int tid = -1) { return rtu_ ? rtu(adu) : tcp(tid < 0 ? m.ptid : tid, adu); }
static void answer(MM &m, const Fault &f, int seed) {
    size_t i = (size_t)m.pend; const Cd &c = cmds[i]; Bytes d, good = goodreply(c, m.req, seed, d); m.pend = -1; Kind k = f.k;
    m.retry.erase((int)i); if (k != K_OK && c.fc > 4) m.retry[(int)i] = m.req;
    f.act(m, good); if (k == K_OK && isread(c.fc)) store(c, m.data[i], d);
    until([&]() { return look(m); }, 5000); if (m.pend < 0) next(m);
    count(m, i, k, f.code, f.name.c_str()); check(m);
}
static std::vector<Fault> faults(bool all) {
    std::vector<Fault> v; auto add = [&](const string &n, Kind k, std::function<void(MM &, const Bytes &)> a, int code = 0) { v.push_back({n, k, code, a}); };
    add("valid reply", K_OK, [](MM &m, const Bytes &g) { raw(m, wrap(m, g)); });
    add("no reply", K_TMO, [](MM &, const Bytes &) {});
    for (int e : all ? std::vector<int>{1, 2, 3, 4, 5, 6, 8, 11, 0x7f} : std::vector<int>{2}) add(sfmt("exception %d", e), K_EXC, [=](MM &m, const Bytes &g) { raw(m, wrap(m, by({g[0], g[1] | 0x80, e}))); }, e);
    auto body = [&](const string &n, std::function<Bytes(Bytes)> f) { add(n, K_BAD, [=](MM &m, const Bytes &g) { raw(m, wrap(m, f(g))); }); };
    body("wrong unit", [](Bytes g) { g[0] ^= 1; return g; });
    body("wrong function", [](Bytes g) { g[1] = g[1] == 3 ? 4 : 3; return g; });
    body("one byte short", [](Bytes g) { g.pop_back(); return g; });
    if (all) {
        body("function 0", [](Bytes g) { g[1] = 0; return g; });
        for (int k = 1; k < 8; k++) { body(sfmt("unit with bit %d wrong", k), [k](Bytes g) { g[0] ^= (uint8_t)(1 << k); return g; }); if (k < 7) body(sfmt("function with bit %d wrong", k), [k](Bytes g) { g[1] ^= (uint8_t)(1 << k); return g; }); }
        body("unit 0", [](Bytes g) { g[0] = 0; return g; });
        body("exception of another function", [](Bytes g) { return by({g[0], (g[1] ^ 7) | 0x80, 2}); });
        body("exception of another unit", [](Bytes g) { return by({g[0] + 1, g[1] | 0x80, 2}); });
        body("one byte long", [](Bytes g) { g.push_back(0x5a); return g; });
        body("exception, one byte long", [](Bytes g) { return by({g[0], g[1] | 0x80, 2, 0}); });
        body("exception without a code", [](Bytes g) { return by({g[0], g[1] | 0x80}); });
        body("byte count too large", [](Bytes g) { g[2]++; g[3] ^= 0x55; return g; });
        body("only the header", [](Bytes g) { g.resize(3); g[2] = g[1] <= 4 ? 0 : g[2]; return g; });
        body("unit and function", [](Bytes g) { g.resize(2); return g; });
        body("twice as long", [](Bytes g) { size_t n = g.size() * 2 < 250 ? g.size() * 2 : 250; g.resize(n, 0x77); if (g[1] <= 4) g[2] = (uint8_t)(n - 3); return g; });
        body("250 bytes", [](Bytes g) { size_t n = g.size() == 253 || g.size() == 250 ? 249 : 250; g.resize(n, 0x77); if (g[1] <= 4) g[2] = (uint8_t)(n - 3); return g; });
        add("valid reply in two portions", K_OK, [](MM &m, const Bytes &g) { Bytes f = wrap(m, g); Bytes a(f.begin(), f.begin() + 3), b(f.begin() + 3, f.end()); raw(m, a); idle(); raw(m, b); });
        add("valid reply byte by byte", K_OK, [](MM &m, const Bytes &g) { for (auto x : wrap(m, g)) { raw(m, {x}); idle(); } });
        add("half a reply", rtu_ ? K_CRC : K_TMO, [](MM &m, const Bytes &g) { Bytes f = wrap(m, g); f.resize(f.size() / 2); raw(m, f); until(nullptr, 60); });
    }
    if (rtu_) {
        add("bad checksum", K_CRC, [](MM &m, const Bytes &g) { Bytes f = rtu(g); f.back() ^= 0x40; raw(m, f); });
        if (all) { add("one data bit wrong", K_CRC, [](MM &m, const Bytes &g) { Bytes f = rtu(g); f[f.size() - 3] ^= 1; raw(m, f); }); add("checksum bytes swapped", K_CRC, [](MM &m, const Bytes &g) { Bytes f = rtu(g); if (f[f.size() - 1] == f[f.size() - 2]) f.back() ^= 1; else std::swap(f[f.size() - 1], f[f.size() - 2]); raw(m, f); });
            for (int n : {1, 2, 3}) add(sfmt("%d bytes of noise", n), K_CRC, [=](MM &m, const Bytes &) { raw(m, fill((size_t)n, 3)); });
            add("1500 bytes of noise", K_CRC, [](MM &m, const Bytes &) { raw(m, fill(1500, 9)); }); add("1024 bytes of noise", K_CRC, [](MM &m, const Bytes &) { raw(m, fill(1024, 9)); });
            add("valid reply and noise between the requests", K_OK, [](MM &m, const Bytes &g) { raw(m, rtu(g)); if (until([&]() { for (size_t i = 0; i < cmds.size(); i++) if (cmd(0, (int)i).resp != m.cnt[i].resp) return true; return false; }, 60)) raw(m, fill(7, 1)); }); }
    } else {
        add("connection closed", K_CLOSE, [](MM &m, const Bytes &) { for (auto &c : m.conn) if (c.second == m.pconn) c.second = -1; rt::net_close(m.pconn); });
        if (all) {
            add("old reply, then the valid one", K_OK, [](MM &m, const Bytes &g) { Bytes o = g; if (o.size() > 3) o[3] ^= 0xff; raw(m, wrap(m, o, m.ptid - 1)); raw(m, wrap(m, g)); });
            add("reply to another transaction only", K_TMO, [](MM &m, const Bytes &g) { raw(m, wrap(m, g, m.ptid + 1)); });
            add("valid reply, then another one", K_OK, [](MM &m, const Bytes &g) { Bytes o = g; if (o.size() > 3) o[3] ^= 0xff; raw(m, wrap(m, g)); raw(m, wrap(m, o)); });
            add("half a reply, then closed", K_CLOSE, [](MM &m, const Bytes &g) { Bytes f = wrap(m, g); f.resize(f.size() / 2); raw(m, f); idle(); for (auto &c : m.conn) if (c.second == m.pconn) c.second = -1; rt::net_close(m.pconn); });
            for (int l : {0, 1, 255, 300, 0x7fff, 0xffff}) add(sfmt("length field %d", l), K_CLOSE, [=](MM &m, const Bytes &g) { Bytes f = tcp(m.ptid, g, l); raw(m, f); raw(m, fill(600, 5)); });
            add("wrong protocol id", K_CLOSE, [](MM &m, const Bytes &g) { Bytes f = wrap(m, g); f[3] = 1; raw(m, f); });
        }
    }
    return v;
}
static string lua(const Cd &c) { string s = sfmt("add_command(p, {node=%d, fcode=%d, register=%d, length=%d, mode=\"%s\", enable=%s, interval=%d, tagname=\"%s\", tagcount=%d", c.node, c.fc, c.reg, c.len, c.mode.c_str(), c.enabled ? "true" : "false", c.interval, c.tagspec.c_str(), c.count); if (!rtu_) s += sfmt(", ipaddress=\"10.0.0.%d\", port=%d", c.port % 100, c.port); if (!c.trig.empty()) s += ", trigger=\"" + c.trig + "\""; return s + "})\n"; }
static MM setup(const std::vector<Cd> &c, bool rtu, bool persist = true, int scan = 200, const string &more = "") {
    load(); cmds = c; rtu_ = rtu; tags.clear(); MM m; int k = 0;
    for (auto &x : cmds) { Tag t = x.tagname.empty() ? Tag() : tag(x.tagname); if (t.idx < 0) t = newtag(x.tagname, x.type, (uint32_t)x.tcount); tags.push_back(t); m.data.push_back(fill(t.size, 5 + 60 * k++)); put(t, m.data.back()); rt::net_extern(x.port, true); }
    string cfg = rtu ? sfmt("p = add_port({name=\"m\", enable=true, protocol=\"RTU\", type=\"MASTER\", device=\"/dev/mcser0\", baudrate=9600, databits=8, stopbits=1, parity=\"NONE\", scanrate=%d, frame=10, timeout=100, retries=1, persist=true%s})\n", scan, more.c_str()) : sfmt("p = add_port({name=\"m\", enable=true, protocol=\"TCP\", type=\"CLIENT\", scanrate=%d, timeout=100, retries=1, persist=%s})\n", scan, persist ? "true" : "false");
    for (auto &x : cmds) cfg += lua(x);
    start(cfg); for (size_t i = 0; i < cmds.size(); i++) m.cnt.push_back(cmd(0, (int)i));
    return m;
}
typedef Explorer<MM> X;
static void recover(MM &m) {                                   // every command still gets its data across
    if (m.dead) return; std::vector<int> ok(cmds.size(), 0); auto f = faults(false)[0];
    for (int k = 0; k < 8 * (int)cmds.size(); k++) { if (m.pend < 0) next(m); ok[(size_t)m.pend] = 1; answer(m, f, 77 + k); bool all = true; for (size_t i = 0; i < ok.size(); i++) if (cmds[i].enabled && !ok[i]) all = false; if (all) return; }
    violation("starved", "a command is not sent any more");
}
static void modwrite(MM &m, size_t i, int seed) { Bytes d = fill(tags[i].size, seed); put(tags[i], d); m.data[i] = d; idle(); }
static string cname(const Cd &c) { return sfmt("fc%d-%d-%s%d", c.fc, c.len, c.type == DAX_BOOL ? "BOOL" : c.type == DAX_UINT ? "UINT" : sfmt("t%x", c.type).c_str(), c.tcount) + (c.tagspec != c.tagname ? "-" + c.tagspec : "") + (c.count != c.tcount ? sfmt("-n%d", c.count) : ""); }
static Cd C(int fc, int len, uint32_t type, int tcount, int count, const string &spec = "t", int reg = 0x0102) { Cd c; c.fc = fc; c.node = NODE; c.reg = reg; c.len = len; c.type = type; c.tcount = tcount; c.tagspec = spec; c.tagname = spec.substr(0, spec.find('[')); c.count = count; c.port = 1502; return c; }
static void one(const Cd &c, bool rtu, bool all, int depth, bool persist = true) {
    string nm = string(rtu ? "RTU-" : "TCP-") + cname(c) + (persist ? "" : "-reopen") + (all ? "" : "-seq");
    run_forked(nm.c_str(), [=]() {
        MM m = setup({c}, rtu, persist); next(m); X x; x.name = nm; x.depth = depth; x.leaf = recover;
        for (auto &f : faults(all)) { if (!isread(c.fc) && f.name.compare(0, 10, "byte count") == 0) continue; for (int s = 0; s < (f.k == K_OK && all ? 2 : 1); s++) x.add(f.name + (s ? " (other data)" : ""), [=](MM &s2) { answer(s2, f, 100 + 90 * s); }); }
        if (!all || !isread(c.fc)) x.add("a module writes the tag", [=](MM &s) { modwrite(s, 0, s.data[0].empty() ? 1 : s.data[0][0] + 3); }, [](const MM &m) { return true; });
        if (c.fc == 5) x.add("a module clears the tag", [=](MM &s) { Bytes d(tags[0].size, 0); put(tags[0], d); s.data[0] = d; idle(); });
        if (!rtu) { x.add("nobody listens for a while", [=](MM &s) { rt::net_extern(1502, false); if (s.pend >= 0) { for (auto &q : s.conn) q.second = -1; rt::net_close(s.pconn); s.pend = -1; } until(nullptr, 700); rt::net_extern(1502, true); next(s); s.cnt[0] = cmd(0, 0); check(s); }); }
        x.run(m); });
}
static void refused() {                                        // commands that cannot be sent are not sent
    for (auto &c : std::vector<Cd>{C(1, 2001, DAX_BOOL, 2008, 2008), C(2, 0, DAX_BOOL, 8, 8), C(3, 126, DAX_UINT, 200, 200), C(4, 65535, DAX_UINT, 200, 200), C(15, 1969, DAX_BOOL, 2008, 2008), C(16, 124, DAX_UINT, 200, 200), C(16, 0, DAX_UINT, 2, 2), C(7, 1, DAX_UINT, 2, 2), C(99, 1, DAX_UINT, 2, 2), C(0, 1, DAX_UINT, 2, 2)}) for (int r = 0; r < 2; r++) { string nm = string(r ? "RTU" : "TCP") + "-refused-" + cname(c);
        run_forked(nm.c_str(), [=]() { MM m = setup({c, C(3, 2, DAX_UINT, 2, 2, "ok", 77)}, r, true); X x; x.name = nm; x.depth = 1; x.leaf = nullptr;
            x.add("scan", [=](MM &s) { auto f = faults(false)[0]; for (int k = 0; k < 4; k++) { next(s); if (s.pend != 1) violation("request", "a command that is not valid is sent"); answer(s, f, 9 + k); } }); x.run(m); }); }
}
static void several(bool rtu) {                                // three commands, two hosts
    string nm = string(rtu ? "RTU" : "TCP") + "-several"; run_forked(nm.c_str(), [=]() {
        std::vector<Cd> v = {C(3, 3, DAX_UINT, 3, 3, "a", 10), C(16, 2, DAX_UINT, 2, 2, "b", 20), C(1, 9, DAX_BOOL, 9, 9, "c", 30)}; v[1].port = 1503; MM m = setup(v, rtu); next(m); X x; x.name = nm; x.depth = thorough() ? 6 : 4; x.leaf = recover;
        for (auto &f : faults(false)) x.add(f.name, [=](MM &s) { answer(s, f, 100); });
        x.add("a module writes all tags", [=](MM &s) { for (size_t i = 0; i < 3; i++) if ((int)i != s.pend) modwrite(s, i, s.data[i][0] + 3); });
        for (int i = 0; i < 3; i++) { x.add(sfmt("disable %d", i), [=](MM &s) { Tag e = tag("m_cmd_en"); Bytes d = get(e); setbit(d, i, 0); put(e, d); idle(); cmds[(size_t)i].enabled = true; for (int k = 0; k < 6; k++) { if (s.pend < 0 && !until([&]() { return look(s); }, 1500)) break; auto f = faults(false)[0]; int p = s.pend; if (k > 1 && p == i) violation("enable", "command %d is sent although its enable bit is off", i); if (p >= 0) { Bytes dd, g = goodreply(cmds[(size_t)p], s.req, 3 + k, dd); s.pend = -1; f.act(s, g); if (isread(cmds[(size_t)p].fc)) store(cmds[(size_t)p], s.data[(size_t)p], dd); until([&]() { return look(s); }, 1500); } } setbit(d, i, 1); put(e, d); idle(); next(s); for (size_t q = 0; q < 3; q++) s.cnt[q] = cmd(0, (int)q); check(s); }); }
        x.run(m); });
}
static void events(bool rtu) {                                 // commands sent on a write, on a change, on a trigger; the asynchronous command tag
    string nm = string(rtu ? "RTU" : "TCP") + "-events"; run_forked(nm.c_str(), [=]() {
        load(); Tag trig = newtag("trig", DAX_BOOL, 1), trig2 = newtag("trig2", DAX_BOOL, 1); std::vector<Cd> v = {C(16, 2, DAX_UINT, 2, 2, "w", 10), C(15, 10, DAX_BOOL, 10, 10, "ch", 20), C(3, 2, DAX_UINT, 2, 2, "rd", 30), C(6, 1, DAX_UINT, 1, 1, "tw", 40)};
        v[0].mode = "WRITE"; v[1].mode = "CHANGE"; v[2].mode = "TRIGGER"; v[2].trig = "trig"; v[3].mode = "TRIGGER"; v[3].trig = "trig2"; if (!rtu) v[1].port = 1503;
        cmds = v; rtu_ = rtu; tags.clear(); MM m; int k = 0; for (auto &x : cmds) { tags.push_back(newtag(x.tagname, x.type, (uint32_t)x.tcount)); m.data.push_back(fill(tags.back().size, 5 + 60 * k++)); put(tags.back(), m.data.back()); rt::net_extern(x.port, true); }
        string cfg = rtu ? "p = add_port({name=\"m\", enable=true, protocol=\"RTU\", type=\"MASTER\", device=\"/dev/mcser0\", baudrate=9600, databits=8, stopbits=1, parity=\"NONE\", scanrate=200, frame=10, timeout=100, retries=1, persist=true})\n" : "p = add_port({name=\"m\", enable=true, protocol=\"TCP\", type=\"CLIENT\", scanrate=200, timeout=100, retries=1, persist=true})\n"; for (auto &x : cmds) cfg += lua(x); start(cfg); until(nullptr, 2000); for (size_t i = 0; i < cmds.size(); i++) m.cnt.push_back(cmd(0, (int)i));
        Tag at = tag("m_cmd"), asend; asend.idx = at.idx; X x; x.name = nm; x.depth = thorough() ? 4 : 3;
        auto expectreq = [=](MM &s, int i, const Fault &f, int seed) { if (!until([&]() { return look(s); }, 1500)) violation("no-request", "command %d is not sent after its event", i); if (s.pend != i) violation("request", "command %d is sent instead of %d", s.pend, i); Bytes d, g = goodreply(cmds[(size_t)i], s.req, seed, d); s.pend = -1; f.act(s, g); if (f.k == K_OK && isread(cmds[(size_t)i].fc)) store(cmds[(size_t)i], s.data[(size_t)i], d);
            if (f.k == K_TMO) { if (!until([&]() { return look(s); }, 1500) || s.pend != i) violation("no-request", "no second attempt after a timeout"); s.pend = -1; until(nullptr, 400); s.cnt[(size_t)i] = cmd(0, i); } else { until(nullptr, 300); count(s, (size_t)i, f.k, f.code, f.name.c_str()); }
            if (look(s)) violation("request", "command %d is sent without an event", s.pend); check(s); };
        for (auto &f : faults(false)) { if (f.k == K_CRC || f.k == K_CLOSE) continue;
            x.add("write w: " + f.name, [=](MM &s) { modwrite(s, 0, s.data[0][0] + 1); expectreq(s, 0, f, 1); });
            x.add("rewrite w: " + f.name, [=](MM &s) { put(tags[0], s.data[0]); idle(); expectreq(s, 0, f, 1); });
            x.add("change ch: " + f.name, [=](MM &s) { modwrite(s, 1, s.data[1][0] + 1); expectreq(s, 1, f, 1); });
            x.add("trigger rd: " + f.name, [=](MM &s) { put(trig, {1}); idle(); expectreq(s, 2, f, s.data[2][0] + 5); if (get(trig)[0] & 1) violation("trigger", "the trigger is not reset"); });
            x.add("trigger tw: " + f.name, [=](MM &s) { put(trig2, {1}); idle(); expectreq(s, 3, f, 1); if (get(trig2)[0] & 1) violation("trigger", "the trigger is not reset"); }); }
        auto none = [=](MM &s) { until(nullptr, 600); if (look(s)) violation("request", "command %d is sent without an event", s.pend); check(s); };
        x.add("rewrite ch", [=](MM &s) { put(tags[1], s.data[1]); none(s); });
        x.add("write rd and tw", [=](MM &s) { modwrite(s, 2, 9); modwrite(s, 3, s.data[3][0] + 1); none(s); });
        x.add("trigger stays reset", [=](MM &s) { put(trig, {0}); none(s); });
        x.run(m); });
}
// the asynchronous command tag: any function, register and length written there by a module
static void async(bool rtu) { string nm = string(rtu ? "RTU" : "TCP") + "-async"; run_forked(nm.c_str(), [=]() {
        load(); cmds = {C(3, 1, DAX_UINT, 1, 1, "x", 1)}; cmds[0].enabled = false; rtu_ = rtu; tags = {newtag("x", DAX_UINT, 1)}; rt::net_extern(1502, true); MM m; m.data.push_back(fill(2, 5)); put(tags[0], m.data[0]);
        string cfg = rtu ? "p = add_port({name=\"m\", enable=true, protocol=\"RTU\", type=\"MASTER\", device=\"/dev/mcser0\", baudrate=9600, databits=8, stopbits=1, parity=\"NONE\", scanrate=200, frame=10, timeout=100, retries=1, persist=true})\n" : "p = add_port({name=\"m\", enable=true, protocol=\"TCP\", type=\"CLIENT\", scanrate=200, timeout=100, retries=1, persist=true})\n"; start(cfg + lua(cmds[0])); until(nullptr, 1000);
        Tag at = tag("m_cmd"); at.size = 255; Bytes z = get(at); if (at.idx < 0) violation("port", "there is no command tag"); X x; x.name = nm; x.depth = 1;
        for (int fc : {0, 1, 2, 3, 4, 5, 6, 7, 15, 16, 255}) for (int len : {0, 1, 2, 8, 9, 119, 120, 121, 125, 126, 240, 255, 1919, 1920, 1921, 2000, 2001, 32768, 65535}) for (int fk = 0; fk < 4; fk++) { if ((fc == 5 || fc == 6) && len > 2) continue;
            x.add(sfmt("function %d length %d, reply %d", fc, len, fk), [=](MM &s) {
                Cd c = C(fc, len, DAX_UINT, 120, 120, "async", 0x0203); Bytes data = fill(240, fc * 3 + len); Bytes h = by({0, 0, 0, 10, 0, 0, 2, 1502 & 0xff, 1502 >> 8, NODE, fc, 3, 2, len & 0xff, len >> 8}); put(at, h); put(at, data, 15); put(at, {1}); idle();
                bool bits = fc == 1 || fc == 2 || fc == 15; bool valid = fc == 5 || fc == 6 || ((fc >= 1 && fc <= 4) || fc == 15 || fc == 16); if (valid && fc != 5 && fc != 6) { int mx = fc <= 2 ? 2000 : fc <= 4 ? 125 : fc == 15 ? 1968 : 123; valid = len >= 1 && len <= mx && (bits ? (len + 7) / 8 : len * 2) <= 240; }
                if (fc == 5 || fc == 6) c.len = 1; Bytes got; int conn = -1;
                auto arrived = [&]() { if (rtu) { int q = rt::serial_conn(); if (q >= 0 && rt::net_avail(q)) { Bytes f = take(q); got.assign(f.begin(), f.end() - 2); if (rtu_ && mbx::rtu(got) != f) violation("request", "wrong checksum"); conn = q; return true; } return false; } int nc = rt::net_ext_accept(1502); if (nc >= 0) s.conn[1502] = nc; if (s.conn.count(1502) && rt::net_avail(s.conn[1502])) { Bytes f = take(s.conn[1502]); s.ptid = f[0] << 8 | f[1]; if ((size_t)(f[4] << 8 | f[5]) + 6 != f.size()) violation("request", "wrong length field in %s", hx(f).c_str()); got.assign(f.begin() + 6, f.end()); conn = s.conn[1502]; return true; } return false; };
                bool r = until(arrived, 1000); S->checks++;
                if (!valid) { if (r) violation("request", "a command that is not valid (function %d, length %d) is sent: %s", fc, len, hx(got).c_str()); }
                else { if (!r) violation("no-request", "the asynchronous command (function %d, length %d) is not sent", fc, len); Cd cc = c; cc.type = DAX_BYTE; cc.count = 240; Bytes dd(dsize(c), 0); for (size_t i = 0; i < dd.size() && i < 240; i++) dd[i] = data[i]; Bytes full = data; Bytes w = request(cc, full); if (got != w) violation("request", "the request is %s, the command says %s", hx(got).c_str(), hx(w).c_str());
                    Bytes d, g = goodreply(cc, got, 91, d); s.pconn = conn; Bytes want = data; int tries = fk == 1 ? 2 : 1;
                    for (int t = 0; t < tries; t++) { if (t) { if (!until(arrived, 1000)) violation("no-request", "no second attempt"); s.pconn = conn; } if (fk == 0) raw(s, wrap(s, g)); else if (fk == 2) raw(s, wrap(s, by({NODE, fc | 0x80, 2}))); else if (fk == 3) { Bytes q = g; q.push_back(1); raw(s, wrap(s, q)); } }
                    until(nullptr, 600); if (fk == 0 && isread(fc)) for (size_t i = 0; i < d.size(); i++) want[i] = d[i];
                    Bytes now = get(at); Bytes nd(now.begin() + 15, now.end()); if (fk == 0 && isread(fc) && d.size() % 2) nd[d.size()] = want[d.size()]; if (nd != want) { size_t p = 0; while (nd[p] == want[p]) p++; violation("data", "the data of the command tag differ at byte %zu: 0x%02x, expected 0x%02x", p, nd[p], want[p]); } int resp = (int16_t)(now[1] | now[2] << 8); if ((fk == 0) != (resp == 0)) violation("counters", "the response of the command tag is %d", resp); }
                until(nullptr, 300); Bytes now = get(at); if (now[0] & 1) violation("async", "the send bit is not reset"); if (!valid && !(now[1] | now[2])) violation("counters", "a refused asynchronous command reports success"); check(s); }); }
        x.run(m); }); }
// a continuous command is sent at every n-th scan, whatever becomes of the others; a disabled port's commands are not sent
static void intervals(bool rtu) {
    std::set<std::vector<int>> V = {{1, 2, 3, 200}, {2, 2, 1, 500}, {3, 1, 4, 250}, {5, 2, 0, 200}, {1, 1, 1, 1000}}; if (thorough()) for (int a = 0; a < 6; a++) for (int b = 1; b < 6; b++) for (int c = 1; c < 6; c++) V.insert({a, b, c, 200 + 100 * a});
    for (auto &v : V) { string nm = string(rtu ? "RTU" : "TCP") + sfmt("-interval-%d-%d-%d-%d", v[0], v[1], v[2], v[3]); run_forked(nm.c_str(), [=]() {
        std::vector<Cd> c = {C(3, 3, DAX_UINT, 3, 3, "a", 10), C(16, 2, DAX_UINT, 2, 2, "b", 20), C(1, 9, DAX_BOOL, 9, 9, "c", 30)}; for (size_t i = 0; i < 3; i++) c[i].interval = v[i];
        MM m = setup(c, rtu, true, v[3]); next(m); X x; x.name = nm; x.depth = 2;
        for (auto &f : faults(false)) { if (f.k == K_TMO || f.k == K_CRC || f.k == K_CLOSE || f.k == K_BAD) continue; x.add("scans, first reply: " + f.name, [=](MM &s) {
            bool first = true; std::vector<std::pair<int64_t, int>> L; int64_t t0 = *rt::now_ms; auto ok = faults(false)[0];
            for (int k = 0; k < 40; k++) { if (s.pend < 0) next(s); L.push_back({*rt::now_ms, s.pend}); if (*rt::now_ms - t0 > 24 * v[3]) break; answer(s, first ? f : ok, 70 + k); first = false; }
            for (int i = 0; i < 3; i++) { int64_t last = -1; int n = 0; int64_t want = (int64_t)v[3] * (v[(size_t)i] < 1 ? 1 : v[(size_t)i]); for (auto &l : L) { if (l.second != i) continue; n++; S->checks++; if (last >= 0 && (l.first - last > want + v[3] * 2 / 5 || l.first - last < want - v[3] * 2 / 5)) violation("interval", "command %d is sent %lld ms after the last time, its interval of %d scans of %d ms says %lld", i, (long long)(l.first - last), v[(size_t)i], v[3], (long long)want); last = l.first; } if (n < 1) violation("interval", "command %d with an interval of %d scans is never sent in %zu requests", i, v[(size_t)i], L.size()); }
        }); }
        x.run(m); }); }
}
// a serial port with a failure limit rests after so many failed commands in a row, not earlier, and comes back
static void failures() {
    for (int mx : {0, 1, 2, 3}) for (int inh : {2, 4}) { string nm = sfmt("RTU-failures-%d-%d", mx, inh); run_forked(nm.c_str(), [=]() {
        MM m = setup({C(3, 2, DAX_UINT, 2, 2, "t", 1), C(1, 9, DAX_BOOL, 9, 9, "u", 2)}, true, true, 200, sfmt(", maxfailures=%d, inhibit=%d", mx, inh)); next(m); X x; x.name = nm; x.depth = thorough() ? 9 : 6; x.leaf = recover; x.dedupe = false;
        auto f = faults(false);
        x.add("valid reply", [=](MM &s) { int64_t t = *rt::now_ms; answer(s, f[0], 100); s.sent = 0; s.served.clear(); if (*rt::now_ms - t > 900) violation("inhibit", "after a valid reply no request is sent for %lld ms", (long long)(*rt::now_ms - t)); });
        x.add("failed command", [=](MM &s) { answer(s, f[1], 1); int64_t t = *rt::now_ms; answer(s, f[1], 1); int64_t d = *rt::now_ms - t; s.served.push_back(1); int n = (int)s.served.size(); S->checks++; if (mx && n >= mx && d < inh * 1000) { if (n == mx) violation("inhibit", "the next request is sent %lld ms after %d failed commands, the port should rest for %d s", (long long)d, n, inh); } if ((!mx || n < mx) && d > 900) violation("inhibit", "no request for %lld ms after %d failed commands, the limit is %d", (long long)d, n, mx); });
        x.run(m); }); }
}
static void c21() {
    std::vector<Cd> full = {C(1, 1, DAX_BOOL, 1, 1), C(1, 10, DAX_BOOL, 10, 10), C(2, 8, DAX_BOOL, 8, 8), C(2, 9, DAX_BOOL, 20, 9, "t[5]"), C(3, 1, DAX_UINT, 1, 1), C(3, 5, DAX_UINT, 5, 5), C(4, 4, DAX_DINT, 2, 2), C(4, 125, DAX_UINT, 125, 125), C(1, 2000, DAX_BOOL, 2000, 2000), C(5, 1, DAX_BOOL, 1, 1), C(6, 1, DAX_UINT, 1, 1), C(15, 11, DAX_BOOL, 11, 11), C(16, 3, DAX_UINT, 3, 3), C(15, 1968, DAX_BOOL, 1968, 1968), C(16, 123, DAX_UINT, 123, 123)};
    for (int r = 0; r < 2; r++) for (auto &c : full) one(c, r, true, thorough() && c.len < 20 ? 2 : 1);
    std::vector<Cd> more;                                       // sizes and types
    for (int n : {2, 7, 15, 16, 17, 1999}) { more.push_back(C(1, n, DAX_BOOL, n, n)); more.push_back(C(15, n > 1968 ? 1967 : n, DAX_BOOL, n, n)); } for (int n : {2, 3, 120, 124}) { more.push_back(C(3, n, DAX_UINT, n, n)); more.push_back(C(16, n > 123 ? 122 : n, DAX_UINT, n, n)); }
    for (auto t : {DAX_BYTE, DAX_SINT, DAX_WORD, DAX_INT, DAX_DINT, DAX_REAL, DAX_LINT, DAX_LREAL, DAX_UDINT}) for (int fc : {3, 16}) { more.push_back(C(fc, 8, (uint32_t)t, 16 / esize((uint32_t)t), 16 / esize((uint32_t)t))); more.push_back(C(fc, 8, (uint32_t)t, 40, 40)); more.push_back(C(fc, 8, (uint32_t)t, 6, 1, "t[2]")); more.push_back(C(fc, 5, (uint32_t)t, 9, 3, "t[4]")); }
    for (int fc : {1, 15}) { more.push_back(C(fc, 12, DAX_BOOL, 40, 12, "t[3]")); more.push_back(C(fc, 12, DAX_BOOL, 40, 5, "t[8]")); more.push_back(C(fc, 12, DAX_BOOL, 40, 30, "t[7]")); more.push_back(C(fc, 16, DAX_UINT, 3, 1, "t[1]")); more.push_back(C(fc, 16, DAX_BYTE, 2, 2)); } more.push_back(C(5, 1, DAX_BOOL, 20, 1, "t[11]")); more.push_back(C(6, 1, DAX_INT, 5, 1, "t[3]")); more.push_back(C(6, 1, DAX_BYTE, 2, 2)); for (int reg : {0, 255, 256, 0x7fff, 0xffff}) { more.push_back(C(3, 2, DAX_UINT, 2, 2, "t", reg)); more.push_back(C(6, 2, DAX_UINT, 2, 1, "t", reg)); }
    int k = 0; for (auto &c : more) for (int r = 0; r < 2; r++) if (thorough() || (k++ % 2 == 0) == (r == 0)) one(c, r, false, thorough() ? 3 : 2);
    one(C(3, 2, DAX_UINT, 2, 2), false, false, 3, false); one(C(16, 2, DAX_UINT, 2, 2), false, false, 3, false);
    refused(); failures(); for (int r = 0; r < 2; r++) { several(r); events(r); async(r); intervals(r); }
}
static Reg r21("C21", c21, "every kind of reply (valid, split, late, foreign, exceptions, wrong unit/function/length/byte count/checksum/transaction/protocol, noise, none, closed connection) to every command function at its quantity limits and for all tag types, offsets and sizes, in all sequences up to the depth bound, over TCP and RTU; commands on write, change and trigger events, enable bits and the asynchronous command tag; every request, all tag data and the error counters are compared with the expected ones");
