// Malformed messages, stream framing, module registration, compound type definitions (C12 server side, C14, C15, C19)
#include "scn.h"
// ---------------------------------------------------------------- C14
namespace {
Bytes atm(const H &h, int op, const Bytes &d) { return srv::B().u32(h.index).u32(h.byte).u32(h.count).u32(h.type).u8(h.bit).u16(op).u16(0).v(d); }
struct Rich { Sys m; int A, B, U, Q, R, L; int ev, mp, grp; uint32_t cdt; };
Rich *rich() {                                 // a server in which everything exists: tags, events, mappings, groups, overrides, queues, types
    Rich *r = new Rich; Sys &m = r->m; m.boot(4, {"obs", "one", "", "two"}); r->A = m.tag_add(1, "A", DAX_INT, 4); r->B = m.tag_add(1, "B", DAX_BOOL, 12); r->cdt = m.cdt_create(1, "ct", {{"a", DAX_INT, 1}, {"f", DAX_BOOL, 3}}); r->U = m.tag_add(1, "U", r->cdt, 2); r->Q = m.tag_add(1, "Q", DAX_INT | DAX_QUEUE, 1); r->R = m.tag_add(1, "R", DAX_INT, 1, TAG_ATTR_OWNED | TAG_ATTR_READONLY); r->L = m.tag_add(3, "L", DAX_BYTE, 5000);
    m.write(1, r->A, 0, pat(8, 3)); m.write(1, r->Q, 0, b({1, 2})); r->ev = m.ev_add(1, m.whole(r->A), EVENT_CHANGE, {}, EVENT_OPT_SEND_DATA); m.ev_add(3, m.elem(r->B, 3, 4), EVENT_SET); r->mp = m.map_add(1, m.elem(r->A, 1, 1), H{r->B, 0, 0, 9, 2, DAX_BOOL}); r->grp = m.grp_add(1, {m.elem(r->A, 0, 1), m.whole(r->B)}); m.ov_add(1, r->L, 0, b({1}), b({0x3c})); m.ov_add(1, r->U, 0, b({1}), b({0x3c})); m.ov_set(1, r->U, true); m.flush(); return r;
}
struct Field { size_t off, len; };
struct Tmpl { string name; uint32_t cmd; Bytes pl; std::vector<Field> f; };
std::vector<Tmpl> templates(Rich &r) {
    using srv::B; std::vector<Tmpl> v; auto hb = [](const H &h) { return B().u32(h.index).u32(h.byte).u8(h.bit).u32(h.count).u32(h.size).u32(h.type).b; }; Sys &m = r.m; std::vector<Field> hf{{0, 4}, {4, 4}, {8, 1}, {9, 4}, {13, 4}, {17, 4}}; auto sh = [](std::vector<Field> a, size_t o, std::vector<Field> c) { for (auto x : c) a.push_back({x.off + o, x.len}); return a; };
    v.push_back({"register", MSG_MOD_REG, B().n32(1000).n32(1).s("evil"), {{0, 4}, {4, 4}}}); v.push_back({"tag_add", MSG_TAG_ADD, B().u32(DAX_INT).u32(2).u32(0).s("N"), {{0, 4}, {4, 4}, {8, 4}}}); v.push_back({"tag_add grow", MSG_TAG_ADD, B().u32(DAX_INT).u32(6).u32(0).s("A"), {{0, 4}, {4, 4}, {8, 4}}}); v.push_back({"tag_add queue", MSG_TAG_ADD, B().u32(DAX_INT | DAX_QUEUE).u32(2).u32(0).s("N"), {{0, 4}, {4, 4}, {8, 4}}}); v.push_back({"tag_add custom", MSG_TAG_ADD, B().u32(r.cdt).u32(2).u32(TAG_ATTR_OWNED).s("N"), {{0, 4}, {4, 4}, {8, 4}}});
    v.push_back({"tag_del", MSG_TAG_DEL, B().u32(r.B), {{0, 4}}}); v.push_back({"tag_get name", MSG_TAG_GET, B().u8(TAG_GET_NAME).s("A"), {{0, 1}}}); v.push_back({"tag_get index", MSG_TAG_GET, B().u8(TAG_GET_INDEX).u32(r.A), {{0, 1}, {1, 4}}}); v.push_back({"tag_list", MSG_TAG_LIST, B().u32(0).u32(0), {{0, 4}, {4, 4}}});
    v.push_back({"read", MSG_TAG_READ, B().u32(r.A).u32(2).u32(4), {{0, 4}, {4, 4}, {8, 4}}}); v.push_back({"read large", MSG_TAG_READ, B().u32(r.L).u32(0).u32(4088), {{0, 4}, {4, 4}, {8, 4}}}); v.push_back({"ov_get large", MSG_GET_OVRD, B().u32(r.L).u32(0).u32(2044), {{0, 4}, {4, 4}, {8, 4}}}); v.push_back({"read queue", MSG_TAG_READ, B().u32(r.Q).u32(0).u32(2), {{0, 4}, {4, 4}, {8, 4}}}); v.push_back({"read virtual", MSG_TAG_READ, B().u32(9).u32(0).u32(8), {{0, 4}, {4, 4}, {8, 4}}}); v.push_back({"read virtual name", MSG_TAG_READ, B().u32(10).u32(0).u32(33), {{0, 4}, {4, 4}, {8, 4}}}); v.push_back({"read overridden", MSG_TAG_READ, B().u32(r.U).u32(0).u32(6), {{0, 4}, {4, 4}, {8, 4}}}); v.push_back({"write", MSG_TAG_WRITE, B().u32(r.A).u32(2).v(b({1, 2, 3, 4})), {{0, 4}, {4, 4}}}); v.push_back({"write module", MSG_TAG_WRITE, B().u32(m.cn[1].tagidx).u32(12).v(b({1, 2, 3, 4})), {{0, 4}, {4, 4}}}); v.push_back({"push", MSG_TAG_WRITE, B().u32(r.Q).u32(0).v(b({1, 2})), {{0, 4}, {4, 4}}}); v.push_back({"mwrite", MSG_TAG_MWRITE, B().u32(r.A).u32(2).v(b({1, 2, 3, 4})), {{0, 4}, {4, 4}}});
    for (int k : {EVENT_WRITE, EVENT_CHANGE, EVENT_EQUAL, EVENT_GREATER, EVENT_DEADBAND}) v.push_back({sfmt("event_add %d", k), MSG_EVNT_ADD, B().u32(r.A).u32(2).u32(2).u32(DAX_INT).u32(k).u32(4).u8(0).v(b({1, 0})), {{0, 4}, {4, 4}, {8, 4}, {12, 4}, {16, 4}, {20, 4}, {24, 1}}}); v.push_back({"event_add set", MSG_EVNT_ADD, B().u32(r.B).u32(0).u32(7).u32(DAX_BOOL).u32(EVENT_SET).u32(2).u8(3), {{0, 4}, {4, 4}, {8, 4}, {12, 4}, {16, 4}, {20, 4}, {24, 1}}}); v.push_back({"event_del", MSG_EVNT_DEL, B().u32(r.A).u32(r.ev), {{0, 4}, {4, 4}}}); v.push_back({"event_get", MSG_EVNT_GET, B().u32(r.A).u32(r.ev), {{0, 4}, {4, 4}}}); v.push_back({"event_opt", MSG_EVNT_OPT, B().u32(r.A).u32(r.ev).u32(1), {{0, 4}, {4, 4}, {8, 4}}});
    for (const char *d : {"nt:a,INT,2:b,BOOL,5", "nt:a,ct,2:b,LREAL,1", "ct:a,INT,1:f,BOOL,3"}) v.push_back({string("cdt_create ") + d, MSG_CDT_CREATE, B().s(d), {}}); v.push_back({"cdt_get name", MSG_CDT_GET, B().u8(CDT_GET_NAME).s("ct"), {{0, 1}}}); v.push_back({"cdt_get type", MSG_CDT_GET, B().u8(CDT_GET_TYPE).u32(r.cdt), {{0, 1}, {1, 4}}});
    v.push_back({"map_add", MSG_MAP_ADD, B().v(hb(m.elem(r.A, 0, 2))).v(hb(m.elem(r.A, 2, 2))), sh(hf, 21, hf)}); v.push_back({"map_add bits", MSG_MAP_ADD, B().v(hb(m.elem(r.B, 3, 6))).v(hb(m.elem(r.B, 1, 9))), sh(hf, 21, hf)}); v.push_back({"map_del", MSG_MAP_DEL, B().u32(r.A).u32(r.mp), {{0, 4}, {4, 4}}}); v.push_back({"map_get", MSG_MAP_GET, B().u32(r.A).u32(r.mp), {{0, 4}, {4, 4}}});
    v.push_back({"group_add", MSG_GRP_ADD, B().u8(2).u8(0).v(hb(m.elem(r.A, 0, 2))).v(hb(m.elem(r.B, 1, 9))), sh({{0, 1}, {1, 1}}, 2, hf)}); v.push_back({"group_del", MSG_GRP_DEL, B().u32(r.grp), {{0, 4}}}); v.push_back({"group_read", MSG_GRP_READ, B().u32(r.grp), {{0, 4}}}); v.push_back({"group_write", MSG_GRP_WRITE, B().u32(r.grp).v(b({1, 2, 3, 4})), {{0, 4}}}); v.push_back({"group_mwrite", MSG_GRP_MWRITE, B().u32(r.grp).v(b({1, 2, 3, 4, 5, 6, 7, 8})), {{0, 4}}});
    v.push_back({"atomic inc", MSG_ATOMIC_OP, atm(m.elem(r.A, 1, 1), ATOMIC_OP_INC, b({1, 0})), {{0, 4}, {4, 4}, {8, 4}, {12, 4}, {16, 1}, {17, 2}, {19, 2}}}); v.push_back({"atomic not", MSG_ATOMIC_OP, atm(m.elem(r.B, 3, 6), ATOMIC_OP_NOT, b({1, 0})), {{0, 4}, {4, 4}, {8, 4}, {12, 4}, {16, 1}, {17, 2}, {19, 2}}});
    v.push_back({"ov_add", MSG_ADD_OVRD, B().u32(r.A).u32(1).u32(2).v(b({1, 2})).v(b({255, 15})), {{0, 4}, {4, 4}, {8, 4}}}); v.push_back({"ov_del", MSG_DEL_OVRD, B().u32(r.U).u32(0).v(b({255, 255})), {{0, 4}, {4, 4}}}); v.push_back({"ov_get", MSG_GET_OVRD, B().u32(r.U).u32(0).u32(3), {{0, 4}, {4, 4}, {8, 4}}}); v.push_back({"ov_set", MSG_SET_OVRD, B().u32(r.A).u8(1), {{0, 4}, {4, 1}}});
    for (uint32_t c : {0u, 28u, 29u, 100u, 255u, 0x7fffffffu, 0x80000000u, 0xffffffffu, 0x01000006u}) v.push_back({sfmt("command 0x%x", c), c, B().u32(r.A).u32(0).u32(2), {}});
    return v;
}
const std::vector<uint32_t> &nasty() { static const std::vector<uint32_t> v = {0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 77, 78, 100, 255, 256, 4079, 4080, 4084, 4088, 4096, 4999, 5000, 5001, 65535, 65536, 0x7ffffff0, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffff0, 0xfffffffe, 0xffffffff, DAX_CUSTOM | 2, DAX_CUSTOM | 3, DAX_QUEUE | DAX_INT, DAX_CUSTOM | DAX_QUEUE}; return v; }
// deliver one message from connection ci and judge: no crash, at most one answer, refused or ignored messages change nothing, everybody else is still served
void fire(Sys &s, int ci, uint32_t cmd, const Bytes &pl, bool after, bool tooshort = false) {
    srv::events.clear(); Bytes f = srv::frame(cmd, pl); rt::net_send(s.cn[ci].c, f.data(), f.size()); srv::idle(); auto v = srv::drain(s.cn[ci].c); bool closed = rt::net_server_closed(s.cn[ci].c);
    if (v.size() > 1) violation("protocol", "message command 0x%x size %zu got %zu answers", cmd, pl.size(), v.size());
    for (auto &c : s.cn) if (&c != &s.cn[ci] && c.open) { if (!srv::drain(c.c).empty()) violation("protocol", "a message of one connection was answered to another"); if (rt::net_server_closed(c.c)) violation("served", "another connection was closed after message command 0x%x size %zu", cmd, pl.size()); }
    bool changed = !v.empty() && !v[0].err; S->checks++; if (changed && tooshort) violation("protocol", "message command 0x%x with only %zu bytes, too few for its fields, was accepted", cmd, pl.size()); outcome(mix(cmd, v.empty() ? 1 : v[0].err ? (uint64_t)-v[0].err : 0));
    if (v.empty() && !closed && pl.empty() && cmd == MSG_MOD_REG) return;
    if (closed) { s.cn[ci].open = false; s.model_unreg(ci); s.exp.clear(); srv::events.clear(); }
    if (!changed && !closed && !srv::events.empty()) violation("event", "a refused message (command 0x%x size %zu) raised a notification", cmd, pl.size());
    if (!changed) s.sweep(true);
    if (after) {                                // latent damage: use everything once
        int o = s.cn[0].c; srv::events.clear(); for (int i = 11; i < s.next + 2; i++) { for (uint32_t z : {1u, 2u, 4u, 78u}) { srv::twrite(o, i, 0, Bytes(z, 0x5a)); srv::tread(o, i, 0, z); } srv::tmask(o, i, 0, b({1}), b({1})); }
        if (s.cn[ci].open) { srv::close(s.cn[ci].c); s.cn[ci].open = false; } srv::idle();
        for (int i = 11; i < s.next + 2; i++) { srv::twrite(o, i, 0, b({3, 4})); srv::tag_get(o, i); } for (int i = 11; i < s.next + 2; i++) srv::tag_del(o, i);
        int c = srv::connect(); srv::Reply r = srv::reg(c, "fresh"); if (r.err) violation("served", "after message command 0x%x size %zu a new module cannot register (error %d)", cmd, pl.size(), r.err); r = srv::tag_add(c, "fresh", DAX_DINT, 2); if (r.err) violation("served", "after message command 0x%x size %zu a new module cannot add a tag (error %d)", cmd, pl.size(), r.err); int i = srv::i32(r.data); r = srv::twrite(c, i, 0, pat(8, 1)); srv::Reply g = srv::tread(o, i, 0, 8); if (r.err || g.err || g.data != pat(8, 1)) violation("served", "after message command 0x%x size %zu a new tag does not hold its value", cmd, pl.size());
    }
}
}
static void c14() {
    for (int ci : {1, 2}) {
        string who = ci == 1 ? "-module" : "-stranger";
        run_forked(("lengths" + who).c_str(), [&]() {   // every prefix of every kind of message, and messages that are too long
            Rich *r = rich(); X x; x.name = "lengths" + who; x.depth = 1;
            for (auto &t : templates(*r)) { std::vector<size_t> L; for (size_t k = 0; k <= t.pl.size() + 9; k++) L.push_back(k); for (size_t k : {100, 255, 1000, 4087, 4088}) L.push_back(k);
                for (size_t k : L) { if (t.cmd == MSG_MOD_REG && k == 0) continue; for (int fill : {0x00, 0xff, 0x41}) { if (k <= t.pl.size() && fill) continue; Bytes p = t.pl; p.resize(k, (uint8_t)fill); uint32_t c = t.cmd; size_t need = 0; for (auto &f : t.f) need = std::max(need, f.off + f.len); if (c == MSG_EVNT_ADD && t.pl.size() > 25 && t.name != sfmt("event_add %d", EVENT_WRITE) && t.name != sfmt("event_add %d", EVENT_CHANGE)) need = t.pl.size(); bool sh = k < need && c != MSG_TAG_LIST; x.add(sfmt("%s length %zu fill %02x", t.name.c_str(), k, fill), [=](Sys &s) { fire(s, ci, c, p, true, sh); }); } } }
            x.run(r->m); });
        run_forked(("fill" + who).c_str(), [&]() {      // every command with constant and counting payloads of every short length
            Rich *r = rich(); X x; x.name = "fill" + who; x.depth = 1;
            for (uint32_t c = 0; c <= 30; c++) for (size_t k = 0; k <= 70; k++) for (int fill : {0x00, 0xff, 0x01, 0x80, 0x41, -1}) { if (c == MSG_MOD_REG && k == 0) continue; if (k > 46 && k % 4 && !thorough()) continue; Bytes p(k, (uint8_t)fill); if (fill < 0) for (size_t i = 0; i < k; i++) p[i] = (uint8_t)i; x.add(sfmt("command %u length %zu fill %d", c, k, fill), [=](Sys &s) { fire(s, ci, c, p, true); }); }
            x.run(r->m); });
        run_forked(("fields" + who).c_str(), [&]() {    // every field of every kind of message set to every boundary value
            Rich *r = rich(); X x; x.name = "fields" + who; x.depth = 1;
            for (auto &t : templates(*r)) for (auto &f : t.f) for (uint32_t v : nasty()) { Bytes p = t.pl; uint32_t w = t.cmd == MSG_MOD_REG ? htonl(v) : v; memcpy(&p[f.off], &w, f.len); uint32_t c = t.cmd; if (c == MSG_TAG_ADD && f.off == 4 && v >= 0x1000000 && v < 0x80000000u) continue; if (c == MSG_TAG_ADD && f.off == 4 && v >= 0x80000000u) { uint32_t ty; memcpy(&ty, &p[0], 4); if ((ty & ~DAX_QUEUE) == DAX_BOOL) continue; }
                if (c == MSG_TAG_ADD && f.off == 0) { /* the type: kept small by the count */ } x.add(sfmt("%s field %zu = 0x%x", t.name.c_str(), f.off, v), [=](Sys &s) { fire(s, ci, c, p, true); }); }
            x.run(r->m); });
    }
    run_forked("pairs", []() {                  // every pair of fields of one message
        Rich *r = rich(); X x; x.name = "pairs"; x.depth = 1; static const std::vector<uint32_t> few = {0, 1, 2, 8, 100, 4088, 0x7fffffff, 0x80000000, 0xffffffff, DAX_BOOL, DAX_LREAL, DAX_CUSTOM | 2}; static const std::vector<uint32_t> four = {0, 3, 0x7fffffff, 0xffffffff};
        for (auto &t : templates(*r)) { if (t.cmd == MSG_TAG_ADD) continue; auto &V = thorough() ? few : (t.f.size() > 6 ? four : few); for (size_t i = 0; i < t.f.size(); i++) for (size_t j = i + 1; j < t.f.size(); j++) for (uint32_t v : V) for (uint32_t w : V) { Bytes p = t.pl; memcpy(&p[t.f[i].off], &v, t.f[i].len); memcpy(&p[t.f[j].off], &w, t.f[j].len); uint32_t c = t.cmd; x.add(sfmt("%s field %zu = 0x%x field %zu = 0x%x", t.name.c_str(), t.f[i].off, v, t.f[j].off, w), [=](Sys &s) { fire(s, 1, c, p, true); }); } }
        x.run(r->m); });
    run_forked("strings", []() {                // names and definitions of every length and shape
        Rich *r = rich(); X x; x.name = "strings"; x.depth = 1; using srv::B;
        for (size_t n = 0; n < 300; n++) { string q(n, 'n'); if (n > 80 && n % 13) continue; x.add(sfmt("tag_add name of %zu", n), [=](Sys &s) { fire(s, 1, MSG_TAG_ADD, B().u32(DAX_INT).u32(1).u32(0).s(q), true); }); x.add(sfmt("tag_add name of %zu no terminator", n), [=](Sys &s) { fire(s, 1, MSG_TAG_ADD, B().u32(DAX_INT).u32(1).u32(0).s(q, false), true); }); x.add(sfmt("register name of %zu", n), [=](Sys &s) { fire(s, 1, MSG_MOD_REG, B().n32(1).n32(1).s(q), true); }); x.add(sfmt("get name of %zu", n), [=](Sys &s) { fire(s, 1, MSG_TAG_GET, B().u8(TAG_GET_NAME).s(q, n % 2), true); }); x.add(sfmt("cdt get name of %zu", n), [=](Sys &s) { fire(s, 1, MSG_CDT_GET, B().u8(CDT_GET_NAME).s(q, n % 2), true); }); x.add(sfmt("cdt name of %zu", n), [=](Sys &s) { fire(s, 1, MSG_CDT_CREATE, B().s(q + ":a,INT,1"), true); }); x.add(sfmt("cdt member name of %zu", n), [=](Sys &s) { fire(s, 1, MSG_CDT_CREATE, B().s("nt:" + q + ",INT,1"), true); }); x.add(sfmt("cdt type name of %zu", n), [=](Sys &s) { fire(s, 1, MSG_CDT_CREATE, B().s("nt:a," + q + ",1"), true); }); x.add(sfmt("cdt of %zu members", n), [=](Sys &s) { string d = "nt"; for (size_t k = 0; k < n; k++) d += sfmt(":m%zu,BOOL,1", k); fire(s, 1, MSG_CDT_CREATE, B().s(d), true); }); }
        static const char *parts[] = {"", ":", ",", "a", "INT", "1", "nt", "ct", "-1", "99999999999", ":a,INT,1", "0", " "}; for (auto a : parts) for (auto c : parts) for (auto d : parts) { string q = string(a) + c + d; x.add("cdt '" + q + "'", [=](Sys &s) { fire(s, 1, MSG_CDT_CREATE, B().s(q), true); }); q = "nt:" + q; x.add("cdt '" + q + "'", [=](Sys &s) { fire(s, 1, MSG_CDT_CREATE, B().s(q), true); }); q = string("nt:a,") + a + c + d; x.add("cdt '" + q + "'", [=](Sys &s) { fire(s, 1, MSG_CDT_CREATE, B().s(q), true); }); }
        x.run(r->m); });
    run_forked("headers", []() {                // size fields that lie
        Rich *r = rich(); X x; x.name = "headers"; x.depth = 2;
        for (uint32_t z : {0u, 1u, 4u, 7u, 8u, 9u, 4095u, 4096u, 4097u, 5000u, 65535u, 0x7fffffffu, 0x80000000u, 0xfffffff8u, 0xffffffffu}) for (int body : {0, 3, 20, 5000}) x.add(sfmt("size field %u with %d bytes", z, body), [=](Sys &s) {
            int c = srv::connect(); Bytes f = srv::B().n32(z).n32(MSG_TAG_READ).b; Bytes t(body, 0); f.insert(f.end(), t.begin(), t.end()); rt::net_send(c, f.data(), f.size()); srv::idle(); auto v = srv::drain(c); (void)v; rt::tick(); srv::idle(); s.sweep(true); for (auto &q : s.cn) if (q.open && rt::net_server_closed(q.c)) violation("served", "another connection was closed after a bad header"); if (cur_n & 1) { srv::close(c); srv::idle(); s.sweep(true); } });
        for (int k = 1; k < 9; k++) x.add(sfmt("%d header bytes then close", k), [=](Sys &s) { int c = srv::connect(); Bytes f = srv::frame(MSG_TAG_READ, Bytes(12, 0)); rt::net_send(c, f.data(), (size_t)k); srv::idle(); srv::close(c); srv::idle(); s.sweep(true); });
        x.run(r->m); });
    run_forked("sequences", []() {              // pairs (thorough: triples) of odd but well-formed requests
        Rich *r = rich(); X x; x.name = "sequences"; x.depth = thorough() ? 3 : 2; auto T = templates(*r);
        for (auto &t : T) { if (t.cmd == 0 || t.cmd > 27) continue; uint32_t c = t.cmd; Bytes p = t.pl; for (int ci : {1, 3}) { x.add(sfmt("c%d %s", ci, t.name.c_str()), [=](Sys &s) { if (!s.cn[ci].open) return; Bytes f = srv::frame(c, p); rt::net_send(s.cn[ci].c, f.data(), f.size()); srv::idle(); if (srv::drain(s.cn[ci].c).size() > 1) violation("protocol", "more than one answer"); }); } }
        for (int ci : {1, 3}) x.add(sfmt("c%d closes", ci), [=](Sys &s) { if (!s.cn[ci].open) return; srv::close(s.cn[ci].c); s.cn[ci].open = false; srv::idle(); });
        x.leaf = [](Sys &s) { int o = s.cn[0].c; for (int i = 11; i < s.next + 3; i++) { for (uint32_t z : {1u, 2u, 4u}) { srv::twrite(o, i, 0, Bytes(z, 0x5a)); srv::tread(o, i, 0, z); } } for (int i = 11; i < s.next + 3; i++) { srv::tag_del(o, i); srv::twrite(o, i - 1, 0, b({1})); } for (auto &q : s.cn) if (&q != &s.cn[0] && q.open) srv::close(q.c); srv::idle(); srv::Reply r = srv::tread(o, 0, 0, 4); if (r.err) violation("served", "the server no longer answers reads"); };
        x.run(r->m); });
}
static Reg r14("C14", c14, "every command x every payload length (prefixes and overlong) x fills; every field of every message set to every boundary value, pairs of fields, string shapes, lying size fields, sequences; from a module and from an unregistered connection; refused messages must leave the complete visible state unchanged; memory checked by AddressSanitizer, damage surfaced by using and deleting everything afterwards");
// ---------------------------------------------------------------- C15
namespace {
struct Msg { uint32_t cmd; Bytes pl; };
Bytes recv_all(int conn) { Bytes o; size_t n; while ((n = rt::net_avail(conn))) { size_t k = o.size(); o.resize(k + n); rt::net_recv(conn, &o[k], n); } return o; }
struct Stream { Bytes bytes; std::vector<size_t> ends; Bytes replies; std::vector<size_t> rends; std::vector<Sys> after; };
}
static void c15() {
    struct Set { Sys m; int A, B, Q, L; std::vector<std::pair<Msg, std::function<void(Sys &, int)>>> ms; };
    auto setup = [](int which) {
        Set *r = new Set; Sys &m = r->m; m.boot(3, {"obs", "one", "two"}); int A = r->A = m.tag_add(1, "A", DAX_INT, 2), B = r->B = m.tag_add(1, "B", DAX_BYTE, 60), Q = r->Q = m.tag_add(1, "Q", DAX_INT | DAX_QUEUE, 1), L = r->L = m.tag_add(1, "L", DAX_BYTE, 4080); m.sweep_sys = false; (void)L; (void)B;
        auto &v = r->ms;
        auto inc = [&](int n) { H h = m.elem(A, 1, 1); Bytes d = b({n, 0}); v.push_back({{MSG_ATOMIC_OP, atm(h, ATOMIC_OP_INC, d)}, [=](Sys &s, int c) { s.atomic(c, h, ATOMIC_OP_INC, d); }}); };
        auto wr = [&](int t, uint32_t o, Bytes d) { v.push_back({{MSG_TAG_WRITE, srv::B().u32(t).u32(o).v(d)}, [=](Sys &s, int c) { s.write(c, t, o, d); }}); };
        auto rd = [&](int t, uint32_t o, uint32_t n) { v.push_back({{MSG_TAG_READ, srv::B().u32(t).u32(o).u32(n)}, [=](Sys &s, int c) { s.read(c, t, o, n); }}); };
        auto bare = [&]() { v.push_back({{MSG_TAG_READ, {}}, [=](Sys &s, int c) { srv::Reply r = srv::rpc(s.cn[c].c, MSG_TAG_READ, {}); if (!r.err) violation("framing", "a read request without any parameter was accepted"); }}); };   // a message that is nothing but its header
        if (which == 0) { inc(1); wr(Q, 0, b({7, 8})); rd(A, 0, 4); bare(); wr(A, 0, b({5, 6})); inc(3); bare(); }
        if (which == 1) { wr(B, 0, pat(60, 9)); inc(1); rd(B, 0, 60); wr(Q, 0, b({1, 1})); rd(Q, 0, 2); v.push_back({{MSG_TAG_DEL, srv::B().u32(B)}, [=](Sys &s, int c) { s.tag_del(c, B); }}); }
        if (which == 2) { inc(2); wr(L, 0, pat(4080, 3)); inc(5); rd(L, 0, 4080); wr(L, 1, pat(4079, 8)); inc(7); }
        return r; };
    auto build = [](Set *r, int ci) {            // expected replies and states, from delivering the messages one at a time
        Stream st; rt::Snap s0; rt::save(s0); Sys m = r->m; st.after.push_back(m);
        for (auto &q : r->ms) { q.second(m, ci); Sys k = m; m.flush(); st.after.push_back(k); }       // through the model: the results are right
        rt::restore(s0); for (auto &q : r->ms) { Bytes f = srv::frame(q.first.cmd, q.first.pl); st.bytes.insert(st.bytes.end(), f.begin(), f.end()); st.ends.push_back(st.bytes.size()); rt::net_send(r->m.cn[ci].c, f.data(), f.size()); srv::idle(); Bytes y = recv_all(r->m.cn[ci].c); st.replies.insert(st.replies.end(), y.begin(), y.end()); st.rends.push_back(st.replies.size()); }
        rt::restore(s0); return st; };
    auto chk = [](const Stream &st, Sys &s, int ci, size_t sent, Bytes &got) { Bytes y = recv_all(s.cn[ci].c); got.insert(got.end(), y.begin(), y.end()); size_t n = 0; while (n < st.ends.size() && st.ends[n] <= sent) n++; size_t want = n ? st.rends[n - 1] : 0; S->checks++; if (got.size() != want || !std::equal(got.begin(), got.end(), st.replies.begin())) violation("framing", "after %zu bytes (%zu complete messages) connection %d got %zu bytes of replies, expected %zu%s", sent, n, ci, got.size(), want, got.size() == want ? " (contents differ)" : ""); return n; };
    for (int which : {0, 1}) { string n = sfmt("splits-%d", which); run_forked(n.c_str(), [&]() {
        Set *r = setup(which); Stream st = build(r, 1); X x; x.name = n; x.depth = 1; size_t N = st.bytes.size();
        auto play = [=](Sys &s, std::vector<size_t> cut, bool tick) { Bytes got; size_t p = 0, done = 0; cut.push_back(N); for (size_t c : cut) { rt::net_send(s.cn[1].c, &st.bytes[p], c - p); srv::idle(); p = c; if (tick) { rt::tick(); srv::idle(); } done = chk(st, s, 1, p, got); } Sys e = st.after[done]; e.sweep(true); s = e; };
        for (size_t i = 1; i < N; i++) { x.add(sfmt("split at %zu", i), [=](Sys &s) { play(s, {i}, false); }); x.add(sfmt("split at %zu with a pause", i), [=](Sys &s) { play(s, {i}, true); }); size_t step = thorough() ? 1 : 3; for (size_t j = i + 1; j < N; j += (j < i + 9 ? 1 : step)) x.add(sfmt("split at %zu and %zu", i, j), [=](Sys &s) { play(s, {i, j}, (i + j) & 1); }); }
        for (size_t k = 1; k <= 40; k++) x.add(sfmt("in pieces of %zu", k), [=](Sys &s) { std::vector<size_t> c; for (size_t i = k; i < N; i += k) c.push_back(i); play(s, c, false); });
        for (int k = 1; k <= 60; k++) x.add(sfmt("reads of at most %d", k), [=](Sys &s) { rt::net_limit_read(k); play(s, {}, false); rt::net_limit_read(0); });
        for (size_t i = 0; i <= N; i++) for (int reuse : {0, 1}) x.add(sfmt("closes after %zu bytes%s", i, reuse ? ", reconnects" : ""), [=](Sys &s) { Bytes got; if (i) { rt::net_send(s.cn[1].c, &st.bytes[0], i); srv::idle(); } size_t done = chk(st, s, 1, i, got); Sys e = st.after[done]; e.disconnect(1); if (reuse) { e.reconnect(1); e.do_register(1, "again"); e.write(1, e.live(r->A) ? r->A : r->Q, 0, b({0x61, 0x62})); } e.sweep(true); s = e; });
        x.run(r->m); }); }
    run_forked("large", [&]() {
        Set *r = setup(2); Stream st = build(r, 1); X x; x.name = "large"; x.depth = 1; size_t N = st.bytes.size();
        auto play = [=](Sys &s, std::vector<size_t> cut, bool tick) { Bytes got; size_t p = 0, done = 0; cut.push_back(N); for (size_t c : cut) { rt::net_send(s.cn[1].c, &st.bytes[p], c - p); srv::idle(); p = c; if (tick) { rt::tick(); srv::idle(); } done = chk(st, s, 1, p, got); } Sys e = st.after[done]; e.sweep(false); s = e; };
        for (size_t e : st.ends) for (int d = -12; d <= 12; d++) { int64_t i = (int64_t)e + d; if (i < 1 || i >= (int64_t)N) continue; x.add(sfmt("split at %d", (int)i), [=](Sys &s) { play(s, {(size_t)i}, d & 1); }); for (size_t f : st.ends) for (int g : {-9, -8, -1, 0, 1, 7, 8, 9}) { int64_t j = (int64_t)f + g; if (j <= i || j >= (int64_t)N) continue; x.add(sfmt("split at %d and %d", (int)i, (int)j), [=](Sys &s) { play(s, {(size_t)i, (size_t)j}, false); }); } }
        for (size_t k : {1, 7, 100, 1000, 1023, 1024, 1025, 2048, 4087, 4088, 4089, 4095, 4096, 4097, 5000, 8192}) { x.add(sfmt("in pieces of %zu", k), [=](Sys &s) { std::vector<size_t> c; for (size_t i = k; i < N; i += k) c.push_back(i); play(s, c, false); }); x.add(sfmt("reads of at most %zu", k), [=](Sys &s) { rt::net_limit_read((int)k); play(s, {}, false); rt::net_limit_read(0); }); }
        x.run(r->m); });
    run_forked("interleaved", [&]() {            // two connections, each stream cut in three, fragments delivered in every order
        Set *r = setup(0); Sys &m = r->m; Stream s1 = build(r, 1); r->ms.erase(r->ms.begin() + 1, r->ms.begin() + 4); X x; x.name = "interleaved"; x.depth = 1;
        // both streams increment the same element; the sum does not depend on the order
        H h = m.elem(r->A, 1, 1); auto inc = [&](int n) { return srv::frame(MSG_ATOMIC_OP, atm(h, ATOMIC_OP_INC, b({n, 0}))); };
        Bytes a = inc(1), a2 = inc(4), c = inc(16), c2 = inc(64); size_t la = a.size(), lc = c.size(); a.insert(a.end(), a2.begin(), a2.end()); c.insert(c.end(), c2.begin(), c2.end()); int A = r->A; size_t step = thorough() ? 1 : 3;
        for (size_t i = 1; i < a.size(); i += step) for (size_t i2 = i + 1; i2 <= a.size(); i2 += thorough() ? 3 : 11) for (size_t j = 1; j < c.size(); j += step) for (int order = 0; order < 10; order++) { // interleavings of 3 + 2 fragments
            x.add(sfmt("cut %zu,%zu | %zu order %d", i, i2, j, order), [=](Sys &s) { static const int O[10] = {0x03, 0x05, 0x06, 0x09, 0x0a, 0x0c, 0x11, 0x12, 0x14, 0x18}; size_t pa = 0, pc = 0; size_t ca[3] = {i, i2, a.size()}, cc[2] = {j, c.size()}; int ka = 0, kc = 0; Bytes g1, g2;
                for (int k = 0; k < 5; k++) { if (O[order] >> k & 1) { rt::net_send(s.cn[2].c, &c[pc], cc[kc] - pc); pc = cc[kc++]; } else { if (ca[ka] > pa) rt::net_send(s.cn[1].c, &a[pa], ca[ka] - pa); pa = ca[ka++]; } if (k & 1 || order & 1) srv::idle();
                    } srv::idle();
                g1 = recv_all(s.cn[1].c); g2 = recv_all(s.cn[2].c); S->checks++; if (g1.size() != 16 || g2.size() != 16) violation("framing", "two connections with interleaved fragments got %zu and %zu bytes of replies, expected 16 each", g1.size(), g2.size()); srv::Reply q = srv::tread(s.cn[0].c, A, 2, 2); if (q.data != b({85, 0})) violation("framing", "four increments delivered in fragments left %s instead of 5500", srv::hex(q.data).c_str()); (void)la; (void)lc; }); }
        x.run(m); });
    run_forked("many", []() {                    // more connections than buffers the server keeps, all in the middle of a message
        Sys m; m.boot(2, {"obs", "one"}); m.sweep_sys = false; int M = m.tag_add(1, "M", DAX_INT, 12); X x; x.name = "many"; x.depth = 1;
        for (int n : {5, 6, 7}) for (size_t cut : {1, 3, 4, 7, 8, 9, 20, 30}) for (int ticks : {0, 1, 2, 4}) for (int gone = -1; gone < n; gone++) for (int order : {0, 1}) { if (!thorough() && gone > 0 && (cut + gone + ticks) % 3) continue;
            x.add(sfmt("%d connections stop after %zu bytes, %d ticks, %d closes, order %d", n, cut, ticks, gone, order), [=](Sys &s) {
                std::vector<int> c; std::vector<Bytes> f; for (int i = 0; i < n; i++) { c.push_back(srv::connect()); f.push_back(srv::frame(MSG_ATOMIC_OP, atm(s.elem(M, i, 1), ATOMIC_OP_INC, b({i + 1, 0})))); srv::idle(); }
                for (int i = 0; i < n; i++) { rt::net_send(c[i], &f[i][0], cut); srv::idle(); } for (int t = 0; t < ticks; t++) { rt::tick(); srv::idle(); }
                if (gone >= 0) { srv::close(c[gone]); srv::idle(); for (int t = 0; t < ticks; t++) { rt::tick(); srv::idle(); } }
                for (int k = 0; k < n; k++) { int i = order ? n - 1 - k : k; if (i == gone) continue; rt::net_send(c[i], &f[i][cut], f[i].size() - cut); srv::idle(); if (rt::net_server_closed(c[i])) violation("framing", "a connection that sent its message in two parts was closed"); auto v = srv::drain(c[i]); S->checks++; if (v.size() != 1 || v[0].err) violation("framing", "a message delivered in two parts while %d connections did the same got %zu answers%s", n, v.size(), v.empty() ? "" : ", an error"); }
                srv::Reply q = srv::tread(s.cn[0].c, M, 0, 24); for (int i = 0; i < n; i++) { int want = i == gone ? 0 : i + 1; if (q.err || q.data[i * 2] != want) violation("framing", "the increment of connection %d was applied wrongly: %d instead of %d", i, q.err ? q.err : q.data[i * 2], want); } }); }
        x.run(m); });
    run_forked("half-message", [&]() {           // a connection that stops in the middle delays nobody
        Set *r = setup(0); Stream st = build(r, 1); X x; x.name = "half-message"; x.depth = 1; size_t N = st.ends[2];
        for (size_t i = 1; i < N; i++) x.add(sfmt("conn 1 stops after %zu bytes", i), [=](Sys &s) { Bytes got; rt::net_send(s.cn[1].c, &st.bytes[0], i); srv::idle(); size_t d = chk(st, s, 1, i, got); Sys e = st.after[d]; e.write(2, r->L, 0, b({1, 2, 3})); e.read(2, r->L, 0, 5); rt::tick(); srv::idle(); e.tag_add(2, "new", DAX_INT, 1); e.sweep(true); rt::tick(); srv::idle(); rt::net_send(s.cn[1].c, &st.bytes[i], N - i); srv::idle(); chk(st, s, 1, N, got); srv::Reply q = srv::tread(s.cn[0].c, r->A, 0, 4); if (q.err) violation("framing", "server does not answer"); s = e; s.cn[1].open = false; });
        x.run(r->m); });
}
static Reg r15("C15", c15, "every 2-part and (a dense grid of; thorough: every) 3-part fragmentation of two message streams, every uniform fragment size and read limit, closing after every byte count, fragments of two connections interleaved in every order, up to seven connections all in the middle of a message, messages of the maximum size and without payload; replies and complete state equal to one-at-a-time delivery");
// ---------------------------------------------------------------- C19
static void c19() {
    run_forked("history", []() {
        Sys m; m.boot(4, {"obs"}); X x; x.name = "history"; x.depth = thorough() ? 7 : 5; x.sweep = [](Sys &s) { s.sweep(true); }; int cap = m.next + 6; auto low = [=](const Sys &s) { return s.next < cap; };
        for (int c : {1, 2, 3}) { x.add(sfmt("c%d register foo", c), [=](Sys &s) { s.do_register(c, "foo"); }, [=](const Sys &s) { return s.cn[c].open && low(s); }); if (c < 3) x.add(sfmt("c%d register other", c), [=](Sys &s) { s.do_register(c, c == 1 ? "foo000" : "bar"); }, [=](const Sys &s) { return s.cn[c].open && low(s); }); x.add(sfmt("c%d drop", c), [=](Sys &s) { s.disconnect(c); }, [=](const Sys &s) { return s.cn[c].open; }); x.add(sfmt("c%d connect", c), [=](Sys &s) { s.reconnect(c); }, [=](const Sys &s) { return !s.cn[c].open; }); }
        x.add("c1 owned tag", [=](Sys &s) { s.tag_add(1, "own1", DAX_INT, 1, TAG_ATTR_OWNED); }, [=](const Sys &s) { return s.cn[1].open && low(s); }); x.add("c2 owned tag", [=](Sys &s) { s.tag_add(2, "own2", DAX_INT, 1, TAG_ATTR_OWNED | TAG_ATTR_READONLY); }, [=](const Sys &s) { return s.cn[2].open && low(s); }); x.add("c2 free tag", [=](Sys &s) { s.tag_add(2, "free", DAX_INT, 1); }, [=](const Sys &s) { return s.cn[2].open && low(s); });
        x.add("c1 status", [=](Sys &s) { s.write(1, s.cn[1].tagidx, 13, b({'o', 'k', 0})); }, [=](const Sys &s) { return s.cn[1].open && s.cn[1].reg; }); x.add("c3 commands c1", [=](Sys &s) { s.write(3, s.cn[1].tagidx, 77, b({4})); }, [=](const Sys &s) { return s.cn[3].open && s.cn[1].reg && s.cn[1].tagidx >= 0; });
        x.run(m); });
    run_forked("names", []() {                   // names of every length and with every byte; equal names and generated names that collide
        Sys m; m.boot(4, {"obs"}); X x; x.name = "names"; x.depth = 1; 
        for (size_t n = 1; n < 64; n++) x.add(sfmt("two modules with a name of %zu", n), [=](Sys &s) { string q(n, 'n'); s.do_register(1, q); s.do_register(2, q); s.do_register(3, q); s.sweep(true); s.disconnect(2); s.sweep(true); s.disconnect(1); s.sweep(true); s.disconnect(3); s.sweep(true); });
        for (int c = 1; c < 256; c++) { string q = string("a") + (char)c + "z"; bool ok = Sys::vname("_m" + q); x.add("register '" + q + "'", [=](Sys &s) { s.do_register(1, q, ok); s.sweep(true); s.ev_add(1, s.whole(0), EVENT_CHANGE); s.tag_add(1, "T", DAX_INT, 1, TAG_ATTR_OWNED); s.sweep(true); s.disconnect(1); s.sweep(true); }); }
        for (const char *a : {"foo", "foo000", "foo001", "foo0", "fo", ""}) for (const char *d : {"foo", "foo000", "foo001", "foo0", "fo", ""}) for (const char *e : {"foo", "foo000", "foo001"}) { string p = a, q = d, u = e; if (p.empty() || q.empty()) continue; x.add(sfmt("register %s, %s, %s", a, d, e), [=](Sys &s) { s.do_register(1, p); s.do_register(2, q); s.do_register(3, u); s.sweep(true); s.disconnect(1); s.sweep(true); s.do_register(2, p); s.sweep(true); }); }
        x.run(m); });
    run_forked("cleanup", []() {                 // a disconnect removes exactly what belonged to that module
        Sys m; m.boot(4, {"obs", "one", "two", ""}); int A = m.tag_add(2, "A", DAX_INT, 2); X x; x.name = "cleanup"; x.depth = thorough() ? 6 : 5; x.sweep = [](Sys &s) { s.sweep(true); }; int cap = m.next + 7; auto low = [=](const Sys &s) { return s.next < cap; };
        for (int c : {1, 2, 3}) { auto op = [=](const Sys &s) { return s.cn[c].open; }; x.add(sfmt("c%d event", c), [=](Sys &s) { s.ev_add(c, s.whole(A), EVENT_WRITE); }, [=](const Sys &s) { return op(s) && s.t.at(A).ev.size() < 3; }); x.add(sfmt("c%d group", c), [=](Sys &s) { s.grp_add(c, {s.elem(A, 0, 1)}); }, [=](const Sys &s) { return op(s) && s.cn[c].grp.size() < 2; }); x.add(sfmt("c%d owned", c), [=](Sys &s) { s.tag_add(c, sfmt("own%d", c), DAX_INT, 1, TAG_ATTR_OWNED); s.tag_add(c, sfmt("OWN%d", c), DAX_BYTE, 3, TAG_ATTR_OWNED); }, [=](const Sys &s) { return op(s) && low(s); }); x.add(sfmt("c%d drop", c), [=](Sys &s) { s.disconnect(c); }, op); }
        x.add("write A", [=](Sys &s) { s.write(0, A, 0, b({cur_n, 1})); }); x.add("c1 back", [=](Sys &s) { s.reconnect(1); s.do_register(1, "one"); }, [=](const Sys &s) { return !s.cn[1].open && low(s); }); x.add("c2 reads group 0", [=](Sys &s) { s.grp_read(2, 0); }, [=](const Sys &s) { return s.cn[2].open; }); x.add("c3 back", [=](Sys &s) { s.reconnect(3); }, [=](const Sys &s) { return !s.cn[3].open; });
        x.run(m); });
}
static Reg r19("C19", c19, "all histories of register / re-register / disconnect / reconnect of three connections with equal, colliding and different names, with owned tags, events and groups, to the depth bound; every name length and byte; complete directory and bookkeeping tags compared after every step");
