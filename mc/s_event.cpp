// Events (C05, C06)
#include "scn.h"
static Bytes num(uint32_t ty, int which) {                 // boundary values of each type
    auto I = [&](auto mn, auto mx) { using T = decltype(mn); T v = 0; switch (which) { case 0: v = 0; break; case 1: v = 1; break; case 2: v = (T)-1; break; case 3: v = mn; break; case 4: v = mx; break; case 5: v = (T)(mx / 2); break; case 6: v = (T)(mx / 2 + 1); break; case 7: v = 100; break; case 8: v = 99; break; case 9: v = 101; break; case 10: v = (T)(mn + 1); break; default: v = (T)(mx - 1); } return val<T>(v); };
    auto F = [&](auto z) { using T = decltype(z); T v = 0; switch (which) { case 0: v = 0; break; case 1: v = 1; break; case 2: v = -1; break; case 3: v = (T)-3e38; break; case 4: v = (T)3e38; break; case 5: v = (T)0.5; break; case 6: v = (T)-0.5; break; case 7: v = 100; break; case 8: v = (T)99.5; break; case 9: v = (T)100.5; break; case 10: v = (T)1e-30; break; default: v = (T)1e10; } return val<T>(v); };
    switch (ty) { case DAX_BYTE: return I((uint8_t)0, (uint8_t)255); case DAX_SINT: case DAX_CHAR: return I((int8_t)-128, (int8_t)127); case DAX_WORD: case DAX_UINT: return I((uint16_t)0, (uint16_t)65535); case DAX_INT: return I((int16_t)-32768, (int16_t)32767); case DAX_DWORD: case DAX_UDINT: return I((uint32_t)0, (uint32_t)0xffffffffu); case DAX_DINT: return I((int32_t)INT32_MIN, (int32_t)INT32_MAX);
        case DAX_LWORD: case DAX_ULINT: return I((uint64_t)0, (uint64_t)~0ull); case DAX_REAL: return F(0.0f); case DAX_LREAL: return F(0.0); default: return I((int64_t)INT64_MIN, (int64_t)INT64_MAX); }
}
static void c05() {
    for (auto &ty : types()) if (ty.t != DAX_BOOL) {
        bool f = ty.t == DAX_REAL || ty.t == DAX_LREAL;
        // every ordered pair (thorough: triple) of boundary values on each element, with every comparison threshold
        string n = string("values-") + ty.n; run_forked(n.c_str(), [&]() {
            Sys m; m.boot(3, {"obs", "one", ""}); int t = m.tag_add(1, "t", ty.t, 2); m.sweep_sys = false; X x; x.name = n; x.depth = thorough() ? 6 : 4; x.sweep = [](Sys &s) { s.sweep(false); };
            for (int th : {0, 1, 2, 3, 4, 7, 11}) { Bytes v = num(ty.t, th); if (!f) m.ev_add(1, m.elem(t, 0, 1), EVENT_EQUAL, v); m.ev_add(1, m.elem(t, 0, 1), EVENT_GREATER, v, th == 7 ? EVENT_OPT_SEND_DATA : 0); m.ev_add(1, m.elem(t, 0, 1), EVENT_LESS, v); m.ev_add(1, m.elem(t, 0, 1), EVENT_DEADBAND, v); }
            m.ev_add(1, m.elem(t, 0, 1), EVENT_CHANGE, {}, EVENT_OPT_SEND_DATA); m.ev_add(1, m.elem(t, 0, 1), EVENT_WRITE, {}, EVENT_OPT_SEND_DATA); m.ev_add(1, m.elem(t, 1, 1), EVENT_CHANGE); m.ev_add(1, m.elem(t, 1, 1), EVENT_WRITE);
            for (int v = 0; v < 12; v++) x.add(sfmt("write #%d", v), [=](Sys &s) { s.write(2, t, 0, num(ty.t, v)); });
            x.run(m); });
        // arrays: events on parts of the tag, writes at every byte offset
        n = string("array-") + ty.n; run_forked(n.c_str(), [&]() {
            Sys m; m.boot(3, {"obs", "one", ""}); int t = m.tag_add(1, "t", ty.t, 4), u = m.tag_add(1, "u", ty.t, 4); m.sweep_sys = false; X x; x.name = n; x.depth = thorough() ? 6 : 4; x.sweep = [](Sys &s) { s.sweep(false); }; uint32_t es = (uint32_t)m.tsize(ty.t);
            for (auto r : std::vector<std::pair<int, int>>{{0, 4}, {1, 1}, {1, 2}, {3, 1}}) { H h = m.elem(t, r.first, r.second); m.ev_add(1, h, EVENT_WRITE, {}, EVENT_OPT_SEND_DATA); m.ev_add(1, h, EVENT_CHANGE, {}, r.first ? EVENT_OPT_SEND_DATA : 0); if (!f) m.ev_add(1, h, EVENT_EQUAL, num(ty.t, 7)); m.ev_add(1, h, EVENT_GREATER, num(ty.t, 7), EVENT_OPT_SEND_DATA); m.ev_add(1, h, EVENT_LESS, num(ty.t, 1)); m.ev_add(1, h, EVENT_DEADBAND, num(ty.t, 1)); m.ev_add(1, h, EVENT_DELETED); }
            Bytes v7, v0, v9; for (int k = 0; k < 4; k++) { Bytes a = num(ty.t, 7), z = num(ty.t, 0), q = num(ty.t, k & 1 ? 9 : 8); v7.insert(v7.end(), a.begin(), a.end()); v0.insert(v0.end(), z.begin(), z.end()); v9.insert(v9.end(), q.begin(), q.end()); }
            x.add("all 100", [=](Sys &s) { s.write(2, t, 0, v7); }); x.add("all 0", [=](Sys &s) { s.write(2, t, 0, v0); }); x.add("mixed", [=](Sys &s) { s.write(1, t, 0, v9); });
            for (uint32_t e : {0u, 1u, 3u}) { x.add(sfmt("[%u]=100", e), [=](Sys &s) { s.write(2, t, e * es, num(ty.t, 7)); }); x.add(sfmt("[%u]=101", e), [=](Sys &s) { s.write(2, t, e * es, num(ty.t, 9)); }); }
            x.add("[1..2]", [=](Sys &s) { Bytes q = num(ty.t, 9), p = num(ty.t, 7); q.insert(q.end(), p.begin(), p.end()); s.write(2, t, es, q); });
            x.add("middle bytes", [=](Sys &s) { s.write(2, t, es - 1, Bytes(es + 1 > 8 ? 8 : es + 1, 0x01)); }); if (es > 1) { x.add("top byte [1]", [=](Sys &s) { s.write(2, t, 2 * es - 1, b({0x40})); }); x.add("low byte [2]", [=](Sys &s) { s.write(2, t, 2 * es, b({0x65})); }); }
            x.add("masked [1]", [=](Sys &s) { s.mwrite(2, t, es, num(ty.t, 9), Bytes(es, 0x0f)); }); x.add("masked none", [=](Sys &s) { s.mwrite(2, t, es, num(ty.t, 9), Bytes(es, 0)); });
            x.add("other tag", [=](Sys &s) { s.write(2, u, 0, v7); }); x.add("refused", [=](Sys &s) { s.write(2, t, es * 4 - 1, b({1, 2})); });
            if (thorough()) x.add("delete", [=](Sys &s) { s.tag_del(2, t); });
            x.run(m); });
        // registration at any point of the history (what held before it was added), and which kinds are accepted
        n = string("register-") + ty.n; run_forked(n.c_str(), [&]() {
            Sys m; m.boot(3, {"obs", "one", ""}); int t = m.tag_add(1, "t", ty.t, 2); m.sweep_sys = false; X x; x.name = n; x.depth = 4; x.sweep = [](Sys &s) { s.sweep(false); };
            auto few = [=](const Sys &s) { return s.t.at(t).ev.size() < 2; };
            for (int k : {EVENT_WRITE, EVENT_CHANGE, EVENT_SET, EVENT_RESET, EVENT_EQUAL, EVENT_GREATER, EVENT_LESS, EVENT_DEADBAND, EVENT_DELETED, 0, 10, 255}) x.add(sfmt("event %d", k), [=](Sys &s) { s.ev_add(1, s.whole(t), k, num(ty.t, 7)); }, few);
            for (int v : {0, 7, 9, 8}) x.add(sfmt("write #%d", v), [=](Sys &s) { s.write(2, t, 0, num(ty.t, v)); });
            x.add("delete", [=](Sys &s) { s.tag_del(2, t); }, [=](const Sys &s) { return s.t.at(t).live; });
            x.run(m); });
    }
    run_forked("bits-ranges", []() {       // every bit range within two bytes, every kind, every one-byte write value on either byte
        Sys m; m.boot(3, {"obs", "one", ""}); int t = m.tag_add(1, "t", DAX_BOOL, 17); m.write(2, t, 0, b({0, 0xff, 0})); m.sweep_sys = false; X x; x.name = "bits-ranges"; x.depth = 1; 
        for (uint32_t e = 0; e < 17; e++) for (uint32_t c = 1; e + c <= 17; c++) for (int k : {EVENT_WRITE, EVENT_CHANGE, EVENT_SET, EVENT_RESET}) {
            if (!thorough() && c > 3 && c != 8 && c != 9 && e + c != 17 && e + c != 16) continue;
            x.add(sfmt("bits %u+%u kind %d", e, c, k), [=](Sys &s) { s.ev_add(1, s.elem(t, e, c), k, {}, EVENT_OPT_SEND_DATA);
                for (int i = 0; i < 8; i++) for (uint32_t o : {0u, 1u}) for (int v : {1 << i, 0}) s.write(2, t, o, b({o ? 0xff ^ v : v}));
                for (int i = 0; i < 8; i++) for (uint32_t o : {0u, 1u}) for (int v : {0xff, 0}) s.mwrite(2, t, o, b({v}), b({1 << i}));
                s.write(2, t, 0, b({0xff, 0xff, 0xff})); s.write(2, t, 0, b({0, 0, 0})); s.write(2, t, 1, b({0x80, 1})); s.write(2, t, 0, b({0x80, 1, 1})); }); }
        x.run(m); });
    run_forked("bits-history", []() {
        Sys m; m.boot(3, {"obs", "one", ""}); int t = m.tag_add(1, "t", DAX_BOOL, 12); m.sweep_sys = false; X x; x.name = "bits-history"; x.depth = thorough() ? 8 : 6; x.sweep = [](Sys &s) { s.sweep(false); };
        for (auto r : std::vector<std::pair<int, int>>{{0, 12}, {3, 1}, {6, 4}, {11, 1}}) for (int k : {EVENT_WRITE, EVENT_CHANGE, EVENT_SET, EVENT_RESET}) m.ev_add(1, m.elem(t, r.first, r.second), k, {}, r.second == 4 ? EVENT_OPT_SEND_DATA : 0);
        for (int v : {0x00, 0x08, 0xff, 0xc0, 0x40}) x.add(sfmt("byte0=%02x", v), [=](Sys &s) { s.write(2, t, 0, b({v})); }); for (int v : {0x00, 0x01, 0x0f, 0x08}) x.add(sfmt("byte1=%02x", v), [=](Sys &s) { s.write(2, t, 1, b({v})); });
        x.add("both ff", [=](Sys &s) { s.write(2, t, 0, b({0xff, 0x0f})); }); x.add("both 0", [=](Sys &s) { s.write(1, t, 0, b({0, 0})); }); x.add("mask bit 3", [=](Sys &s) { s.mwrite(2, t, 0, b({0xff}), b({0x08})); }); x.add("mask bits 6..9", [=](Sys &s) { s.mwrite(2, t, 0, b({0, 0}), b({0xc0, 0x03})); });
        x.add("atomic not 6..9", [=](Sys &s) { s.atomic(2, s.elem(t, 6, 4), ATOMIC_OP_NOT, b({0, 0})); }); x.add("event set 0..11", [=](Sys &s) { s.ev_add(1, s.whole(t), EVENT_SET); }, [=](const Sys &s) { return s.t.at(t).ev.size() < 17; });
        x.run(m); });
    run_forked("custom", []() {            // compound types: whole, a member, mapped and atomic changes raise events like writes do
        Sys m; m.boot(3, {"obs", "one", ""}); uint32_t c = m.cdt_create(1, "ct", {{"a", DAX_INT, 1}, {"f", DAX_BOOL, 3}, {"d", DAX_DINT, 1}}); int t = m.tag_add(1, "t", c, 2), src = m.tag_add(1, "src", DAX_DINT, 1); m.sweep_sys = false; X x; x.name = "custom"; x.depth = thorough() ? 7 : 5; x.sweep = [](Sys &s) { s.sweep(false); };
        for (int k : {EVENT_WRITE, EVENT_CHANGE, EVENT_DELETED}) { m.ev_add(1, m.whole(t), k, {}, EVENT_OPT_SEND_DATA); m.ev_add(1, m.elem(t, 1, 1), k); m.ev_add(1, H{t, 3, 0, 1, 4, DAX_DINT}, k); } for (int k : {EVENT_GREATER, EVENT_LESS, EVENT_DEADBAND, EVENT_EQUAL, EVENT_SET, EVENT_RESET}) { m.ev_add(1, m.whole(t), k, b({1, 0})); m.ev_add(1, m.whole(t), k, pat(14, 1)); m.ev_add(1, m.elem(t, 1, 1), k, pat(7, 1)); m.ev_add(1, H{t, 2, 1, 2, 1, DAX_BOOL}, k == EVENT_SET || k == EVENT_RESET ? 0 : k, pat(8, 1)); } m.ev_add(1, H{t, 3, 0, 1, 4, DAX_DINT}, EVENT_GREATER, val<int32_t>(5)); m.ev_add(1, H{t, 3, 0, 1, 4, DAX_DINT}, EVENT_DEADBAND, val<int32_t>(10)); m.ev_add(1, H{t, 2, 1, 2, 1, DAX_BOOL}, EVENT_SET); m.ev_add(1, H{t, 7, 0, 1, 2, DAX_INT}, EVENT_EQUAL, val<int16_t>(258));
        m.map_add(2, m.whole(src), H{t, 3, 0, 1, 4, DAX_DINT});
        x.add("d=6", [=](Sys &s) { s.write(2, t, 3, val<int32_t>(6)); }); x.add("d=-20", [=](Sys &s) { s.write(2, t, 3, val<int32_t>(-20)); }); x.add("src=7", [=](Sys &s) { s.write(2, src, 0, val<int32_t>(7)); }); x.add("src=0", [=](Sys &s) { s.write(2, src, 0, val<int32_t>(0)); }); x.add("src inc", [=](Sys &s) { s.atomic(2, s.whole(src), ATOMIC_OP_INC, val<int32_t>(3)); }); x.add("d inc", [=](Sys &s) { s.atomic(2, H{t, 3, 0, 1, 4, DAX_DINT}, ATOMIC_OP_INC, val<int32_t>(4)); });
        x.add("flags", [=](Sys &s) { s.write(2, t, 2, b({2})); }); x.add("flags 0", [=](Sys &s) { s.write(2, t, 2, b({0})); }); x.add("[1].a", [=](Sys &s) { s.write(2, t, 7, b({2, 1})); }); x.add("all", [=](Sys &s) { s.write(2, t, 0, pat(14, 5)); }); x.add("group", [=](Sys &s) { int g = s.grp_add(1, {H{t, 3, 0, 1, 4, DAX_DINT}, s.whole(src)}); s.grp_write(1, g, pat(8, 1)); s.grp_del(1, g); }); x.add("delete", [=](Sys &s) { s.tag_del(2, t); });
        x.run(m); });
    run_forked("handles", []() {           // events on ranges that are not inside the tag are refused
        Sys m; m.boot(2, {"obs", "one"}); int t = m.tag_add(1, "t", DAX_INT, 3), u = m.tag_add(1, "u", DAX_BOOL, 9), q = m.tag_add(1, "q", DAX_INT | DAX_QUEUE, 2); (void)u; (void)q; X x; x.name = "handles"; x.depth = 1; x.sweep = [](Sys &s) { s.sweep(false); };
        for (int k : {EVENT_WRITE, EVENT_CHANGE, EVENT_EQUAL, EVENT_DEADBAND, EVENT_DELETED}) for (uint32_t o = 0; o < 8; o++) for (uint32_t c = 1; c < 5; c++) x.add(sfmt("INT byte %u count %u kind %d", o, c, k), [=](Sys &s) { s.ev_add(1, H{t, o, 0, c, c * 2, DAX_INT}, k, b({1, 0})); });
        for (int k : {EVENT_WRITE, EVENT_SET, EVENT_DELETED}) for (uint32_t e = 0; e < 9; e++) for (uint32_t c = 1; e + c <= 9; c++) x.add(sfmt("BOOL %u+%u kind %d", e, c, k), [=](Sys &s) { s.ev_add(1, s.elem(u, e, c), k); });
        for (int i : {-1, 9, 10, 1000, 0x7fffffff}) x.add(sfmt("index %d", i), [=](Sys &s) { s.ev_add(1, H{i, 0, 0, 1, 2, DAX_INT}, EVENT_WRITE); });
        x.run(m); });
    run_forked("system", []() {            // the server's own writes raise events too
        Sys m; m.boot(3, {"obs", "one", ""}); X x; x.name = "system"; x.depth = thorough() ? 8 : 6; x.sweep = [](Sys &s) { s.sweep(false); }; int t = m.tag_add(2, "t", DAX_INT, 1); int cap = m.next + 4;
        m.ev_add(1, m.whole(0), EVENT_CHANGE, {}, EVENT_OPT_SEND_DATA); m.ev_add(1, m.whole(0), EVENT_GREATER, val<int32_t>(14)); m.ev_add(1, m.whole(1), EVENT_WRITE, {}, EVENT_OPT_SEND_DATA); m.ev_add(1, m.whole(2), EVENT_WRITE); m.ev_add(1, m.whole(3), EVENT_WRITE); m.ev_add(1, m.whole(6), EVENT_CHANGE); m.ev_add(1, m.whole(7), EVENT_CHANGE, {}, EVENT_OPT_SEND_DATA); m.ev_add(1, m.whole(8), EVENT_WRITE, {}, EVENT_OPT_SEND_DATA);
        auto low = [=](const Sys &s) { return s.next < cap; };
        x.add("add a", [=](Sys &s) { s.tag_add(2, "a", DAX_INT, 1); }, low); x.add("add b", [=](Sys &s) { s.tag_add(2, "b", DAX_BOOL, 1); }, low); x.add("del newest", [=](Sys &s) { if (s.next - 1 > t) s.tag_del(2, s.next - 1); }); x.add("register", [=](Sys &s) { s.do_register(2, "two"); }, [=](const Sys &s) { return !s.cn[2].reg && s.next < cap; }); x.add("drop", [=](Sys &s) { s.disconnect(2); s.reconnect(2); });
        x.add("ov add", [=](Sys &s) { s.ov_add(2, t, 0, b({1, 2}), b({255, 0})); }); x.add("ov set", [=](Sys &s) { s.ov_set(2, t, true); }); x.add("ov clr", [=](Sys &s) { s.ov_set(2, t, false); }); x.add("ov del", [=](Sys &s) { s.ov_del(2, t, 0, b({255, 255})); });
        x.run(m); });
}
static Reg r05("C05", c05, "for every data type all sequences of boundary values against every event kind and threshold; arrays written at element and byte offsets; every bit range of a BOOL array; registration at any point of the history; system-tag events");
// ---------------------------------------------------------------- C06
static void c06() {
    run_forked("lifecycle", []() {
        Sys m; m.boot(4, {"obs", "one", "two", ""}); int a = m.tag_add(3, "A", DAX_INT, 1), z = m.tag_add(3, "Z", DAX_INT, 1); m.sweep_sys = false; X x; x.name = "lifecycle"; x.depth = thorough() ? 7 : 6; x.sweep = [](Sys &s) { s.sweep(false); };
        auto room = [](int c, int t) { return [=](const Sys &s) { if (!s.cn[c].open) return false; auto it = s.t.find(t); return it != s.t.end() && it->second.live && it->second.ev.size() < 4; }; };
        for (int c : {1, 2}) { x.add(sfmt("c%d add A write", c), [=](Sys &s) { s.ev_add(c, s.whole(a), EVENT_WRITE, {}, c == 1 ? EVENT_OPT_SEND_DATA : 0); }, room(c, a)); x.add(sfmt("c%d add Z change", c), [=](Sys &s) { s.ev_add(c, s.whole(z), EVENT_CHANGE); }, room(c, z)); }
        x.add("c1 add A deleted", [=](Sys &s) { s.ev_add(1, s.whole(a), EVENT_DELETED); }, room(1, a)); x.add("c2 add A greater", [=](Sys &s) { s.ev_add(2, s.whole(a), EVENT_GREATER, b({3, 0})); }, room(2, a));
        for (size_t k = 0; k < 4; k++) x.add(sfmt("del A #%zu", k), [=](Sys &s) { MEv e = s.t[a].ev[k]; s.ev_del(e.conn, a, e.id); }, [=](const Sys &s) { return s.t.at(a).live && s.t.at(a).ev.size() > k && s.cn[s.t.at(a).ev[k].conn].open; });
        x.add("del A #0 by other", [=](Sys &s) { MEv e = s.t[a].ev[0]; s.ev_del(3 - e.conn, a, e.id); }, [=](const Sys &s) { return s.t.at(a).live && s.t.at(a).ev.size() > 0 && s.cn[3 - s.t.at(a).ev[0].conn].open; });
        x.add("opt A #0 by other", [=](Sys &s) { MEv e = s.t[a].ev[0]; s.ev_opt(3 - e.conn, a, e.id, e.opt ? 0 : EVENT_OPT_SEND_DATA); }, [=](const Sys &s) { return s.t.at(a).live && s.t.at(a).ev.size() > 0 && s.cn[3 - s.t.at(a).ev[0].conn].open; });
        x.add("del Z #0", [=](Sys &s) { MEv e = s.t[z].ev[0]; s.ev_del(e.conn, z, e.id); }, [=](const Sys &s) { return s.t.at(z).live && s.t.at(z).ev.size() > 0 && s.cn[s.t.at(z).ev[0].conn].open; });
        x.add("del unknown", [=](Sys &s) { s.ev_del(1, a, 77); s.ev_del(1, a, 0); s.ev_del(1, a, -1); s.ev_del(1, 9999, 1); s.ev_del(1, -1, 1); }, [](const Sys &s) { return s.cn[1].open; }); x.add("opt A last", [=](Sys &s) { MEv e = s.t[a].ev.back(); s.ev_opt(e.conn, a, e.id, e.opt ? 0 : EVENT_OPT_SEND_DATA); }, [=](const Sys &s) { return s.t.at(a).live && s.t.at(a).ev.size() > 0 && s.cn[s.t.at(a).ev.back().conn].open; });
        x.add("write A", [=](Sys &s) { s.write(3, a, 0, b({5, 0})); }); x.add("write A 1", [=](Sys &s) { s.write(3, a, 0, b({1, 0})); }); x.add("write Z", [=](Sys &s) { s.write(3, z, 0, b({cur_n & 1, 1})); });
        x.add("tag del A", [=](Sys &s) { s.tag_del(3, a); }, [=](const Sys &s) { return s.t.at(a).live; });
        for (int c : {1, 2}) x.add(sfmt("c%d drops", c), [=](Sys &s) { s.disconnect(c); }, [=](const Sys &s) { return s.cn[c].open; });
        x.add("c1 again", [=](Sys &s) { s.reconnect(1); s.do_register(1, "one"); }, [=](const Sys &s) { return !s.cn[1].open && s.next < 24; });
        x.run(m); });
    run_forked("list-order", []() {        // five events of two modules on one tag, removed in every order
        Sys m; m.boot(4, {"obs", "one", "two", ""}); int a = m.tag_add(3, "A", DAX_INT, 2); m.sweep_sys = false; X x; x.name = "list-order"; x.depth = thorough() ? 9 : 7; x.sweep = [](Sys &s) { s.sweep(true); s.write(3, s.next - 1, 0, b({1, 0})); };
        for (int k = 0; k < 5; k++) m.ev_add(1 + k % 2, m.elem(a, k == 2 ? 1 : 0, k == 3 ? 2 : 1), EVENT_WRITE);
        std::vector<int> ids; for (auto &e : m.t[a].ev) ids.push_back(e.id);
        for (int k = 0; k < 5; k++) x.add(sfmt("del #%d", k), [=](Sys &s) { s.ev_del(1 + k % 2, a, ids[k]); }, [=](const Sys &s) { return s.cn[1 + k % 2].open; });
        for (int c : {1, 2}) x.add(sfmt("c%d adds", c), [=](Sys &s) { s.ev_add(c, s.elem(a, 1, 1), EVENT_CHANGE); }, [=](const Sys &s) { return s.cn[c].open && s.t.at(a).ev.size() < 6; });
        for (int c : {1, 2}) x.add(sfmt("c%d drops", c), [=](Sys &s) { s.disconnect(c); }, [=](const Sys &s) { return s.cn[c].open; });
        x.add("write hi", [=](Sys &s) { s.write(3, a, 2, b({cur_n, 0})); });
        x.run(m); });
    run_forked("reregister", []() {        // registering again, or without registration, and connections that reuse descriptors
        Sys m; m.boot(4, {"obs", "one", "", ""}); int a = m.tag_add(3, "A", DAX_INT, 1); X x; x.name = "reregister"; x.depth = thorough() ? 6 : 5; x.sweep = [](Sys &s) { s.sweep(false); }; int cap = m.next + 5;
        for (int c : {1, 2}) { x.add(sfmt("c%d event", c), [=](Sys &s) { s.ev_add(c, s.whole(a), EVENT_WRITE); }, [=](const Sys &s) { return s.cn[c].open && s.t.at(a).live && s.t.at(a).ev.size() < 3; }); x.add(sfmt("c%d register", c), [=](Sys &s) { s.do_register(c, c == 1 ? "one" : "two"); }, [=](const Sys &s) { return s.cn[c].open && !s.cn[c].reg && s.next < cap; }); x.add(sfmt("c%d drop", c), [=](Sys &s) { s.disconnect(c); }, [=](const Sys &s) { return s.cn[c].open; }); x.add(sfmt("c%d connect", c), [=](Sys &s) { s.reconnect(c); }, [=](const Sys &s) { return !s.cn[c].open; }); }
        x.add("event on tag 0", [=](Sys &s) { s.ev_add(1, s.whole(0), EVENT_CHANGE); }, [=](const Sys &s) { return s.cn[1].open && s.t.at(0).ev.size() < 1; });
        x.add("write", [=](Sys &s) { s.write(3, a, 0, b({1, 1})); }); x.add("own tag", [=](Sys &s) { s.tag_add(1, "own", DAX_INT, 1, TAG_ATTR_OWNED); }, [=](const Sys &s) { return s.cn[1].open && s.next < cap; }); x.add("event on own", [=](Sys &s) { MTag *q = s.byname("own"); if (q && s.cn[2].open) s.ev_add(2, s.whole(q->idx), EVENT_DELETED); }, [=](const Sys &s) { MTag *q = const_cast<Sys &>(s).byname("own"); return q && q->ev.size() < 2; });
        x.run(m); });
}
static Reg r06("C06", c06, "all histories of event add / delete / option / write / tag delete / disconnect / reconnect of two event-owning modules up to the depth bound; every removal order of five events; exact multiset of notifications per connection after every step");
