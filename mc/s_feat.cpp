// Mappings, overrides, groups, atomic operations, queues (C07-C11)
#include "scn.h"
static bool lv(const Sys &s, int t) { auto i = s.t.find(t); return i != s.t.end() && i->second.live; }
// ---------------------------------------------------------------- C07
static void c07() {
    run_forked("bits", []() {              // every source bit offset, destination bit offset and count, with data patterns on both sides
        Sys m; m.boot(2, {"obs", ""}); int a = m.tag_add(1, "A", DAX_BOOL, 24), z = m.tag_add(1, "Z", DAX_BOOL, 24), y = m.tag_add(1, "Y", DAX_BYTE, 3); m.sweep_sys = false; X x; x.name = "bits"; x.depth = 1;
        uint32_t N = thorough() ? 17 : 10;
        for (int dst : {z, y}) for (uint32_t sb = 0; sb < 10; sb++) for (uint32_t db = 0; db < 10; db++) for (uint32_t c = 1; c <= N; c++) { if (!thorough() && c > 4 && c < 7) continue; if (dst == y && db % 8) continue;
            x.add(sfmt("A.%u+%u -> %d.%u", sb, c, dst, db), [=](Sys &s) { H d = s.elem(z, db, c); if (dst == y) { d = H{y, db / 8, 0, (c + 7) / 8, (c + 7) / 8, DAX_BYTE}; if (d.size < s.elem(a, sb, c).size) d = H{y, db / 8, 0, d.size + 1, d.size + 1, DAX_BYTE}; }
                int id = s.map_add(1, s.elem(a, sb, c), d); s.sweep(false); if (id < 0) return; s.map_check(1, a, id);
                for (auto &p : {b({0xff, 0xff, 0xff}), b({0, 0, 0}), b({0xa5, 0x5a, 0x3c}), b({0x5a, 0xa5, 0xc3})}) for (int bg : {0x00, 0xff}) { s.write(1, dst, 0, b({bg, bg, bg})); s.write(1, a, 0, p); s.sweep(false); }
                for (uint32_t k = 0; k < 3; k++) { s.write(1, dst, 0, b({0x11, 0x22, 0x44})); s.write(1, a, k, b({0x96})); s.mwrite(1, a, k, b({0xff}), b({0x81})); s.sweep(false); } s.map_del(1, a, id); s.write(1, a, 0, b({1, 2, 3})); s.sweep(false); }); }
        x.run(m); });
    run_forked("sizes", []() {             // source and destination ranges of different sizes: it fits or it is refused
        Sys m; m.boot(2, {"obs", ""}); int a = m.tag_add(1, "A", DAX_BOOL, 23), z = m.tag_add(1, "Z", DAX_BOOL, 23), y = m.tag_add(1, "Y", DAX_BYTE, 3); m.sweep_sys = false; X x; x.name = "sizes"; x.depth = 1;
        auto go = [=](Sys &s, H f, H t) { s.write(1, t.index, 0, t.index == y ? b({0x0f, 0xa5, 0x3c}) : b({0x0f, 0xa5, 0x3c})); s.map_add(1, f, t); for (int k = 0; k < 3; k++) for (int v : {0xff, 0x00, 0x69}) { s.write(1, f.index, (uint32_t)k, b({k == 2 && f.index != y ? v & 0x7f : v})); s.sweep(false); } };
        for (uint32_t sb : {0u, 3u, 7u, 8u, 14u}) for (uint32_t sc : {1u, 2u, 5u, 8u, 9u}) for (uint32_t db : {0u, 3u, 7u, 8u, 14u, 21u}) for (uint32_t dc : {1u, 2u, 4u, 8u, 9u}) { if (sb + sc > 23 || db + dc > 23 || sc == dc) continue; x.add(sfmt("A.%u+%u -> Z.%u+%u", sb, sc, db, dc), [=](Sys &s) { go(s, s.elem(a, sb, sc), s.elem(z, db, dc)); }); }
        for (uint32_t so = 0; so < 3; so++) for (uint32_t n = 1; so + n <= 3; n++) for (uint32_t db : {0u, 1u, 7u, 8u}) for (uint32_t dc : {1u, 7u, 8u, 9u, 15u, 16u}) { if (db + dc > 23) continue; x.add(sfmt("Y.%u+%u -> Z.%u+%u", so, n, db, dc), [=](Sys &s) { go(s, H{y, so, 0, n, n, DAX_BYTE}, s.elem(z, db, dc)); }); }
        for (uint32_t sb : {0u, 3u, 7u, 8u}) for (uint32_t sc : {1u, 7u, 8u, 9u, 15u}) for (uint32_t dO = 0; dO < 3; dO++) for (uint32_t n = 1; dO + n <= 3; n++) x.add(sfmt("A.%u+%u -> Y.%u+%u", sb, sc, dO, n), [=](Sys &s) { go(s, s.elem(a, sb, sc), H{y, dO, 0, n, n, DAX_BYTE}); });
        x.run(m); });
    run_forked("types", []() {             // whole and partial mappings between every pair of types
        Sys m; m.boot(2, {"obs", ""}); m.sweep_sys = false; X x; x.name = "types"; x.depth = 1; std::vector<int> src, dst; for (auto &t : types()) { src.push_back(m.tag_add(1, string("s") + t.n, t.t, t.t == DAX_BOOL ? 16 : 3)); dst.push_back(m.tag_add(1, string("d") + t.n, t.t, t.t == DAX_BOOL ? 16 : 3)); }
        for (int i : src) for (int j : dst) for (int form = 0; form < 4; form++) { if (form == 3 && (m.t[i].type == DAX_BOOL || m.t[j].type == DAX_BOOL)) continue;
            x.add(sfmt("%s -> %s form %d", m.t[i].name.c_str(), m.t[j].name.c_str(), form), [=](Sys &s) { H a, d; switch (form) { case 0: a = s.whole(i); d = s.whole(j); break; case 1: a = s.elem(i, 1, 1); d = s.elem(j, 2, 1); break; case 2: a = s.elem(i, 2, 1); d = s.elem(j, 0, 2); break; default: a = s.elem(i, 0, 2); d = s.elem(j, 1, 2); }
                int id = s.map_add(1, a, d); if (id < 0) { s.sweep(false); return; } uint32_t n = (uint32_t)s.t[i].data.size(); s.write(1, j, 0, pat(s.t[j].data.size(), 0x33)); s.write(1, i, 0, pat(n, 7)); s.sweep(false); s.write(1, i, n - 1, b({0xee})); s.sweep(false); s.write(1, i, 0, b({0xdd})); s.sweep(false); }); }
        x.run(m); });
    run_forked("history", []() {
        Sys m; m.boot(3, {"obs", "one", ""}); int A = m.tag_add(1, "A", DAX_INT, 2), B = m.tag_add(1, "B", DAX_INT, 2), C = m.tag_add(2, "C", DAX_BYTE, 4); m.sweep_sys = false; X x; x.name = "history"; x.depth = thorough() ? 7 : 5; x.sweep = [](Sys &s) { s.sweep(true); };
        auto toB = [=](const Sys &s, int form) { for (auto &q : s.t.at(A).maps) { int f = q.d.index == A ? 3 : q.d.index == B ? (q.s.size == 4 ? 1 : 2) : 0; if (f && f != form) return true; } return false; };   // destinations written by two mappings of one source would depend on an unspecified order
        auto few = [=](int t) { return [=](const Sys &s) { return lv(s, t) && s.t.at(t).maps.size() < 4; }; };
        x.add("map A->B", [=](Sys &s) { if (lv(s, B)) s.map_add(1, s.whole(A), s.whole(B)); }, [=](const Sys &s) { return few(A)(s) && !toB(s, 1); }); x.add("map B->A", [=](Sys &s) { if (lv(s, A)) s.map_add(2, s.whole(B), s.whole(A)); }, few(B)); x.add("map A[1]->B[0]", [=](Sys &s) { if (lv(s, B)) s.map_add(2, s.elem(A, 1, 1), s.elem(B, 0, 1)); }, [=](const Sys &s) { return few(A)(s) && !toB(s, 2); }); x.add("map A[0]->C[1]", [=](Sys &s) { if (lv(s, C)) s.map_add(2, s.elem(A, 0, 1), s.elem(C, 1, 2)); }, few(A)); x.add("map B->C", [=](Sys &s) { if (lv(s, C)) s.map_add(2, s.whole(B), s.whole(C)); }, few(B)); x.add("map A->A", [=](Sys &s) { s.map_add(2, s.elem(A, 0, 1), s.elem(A, 1, 1)); }, [=](const Sys &s) { return few(A)(s) && !toB(s, 3); });
        for (size_t k = 0; k < 3; k++) x.add(sfmt("unmap A #%zu", k), [=](Sys &s) { s.map_del(1, A, s.t[A].maps[k].id); }, [=](const Sys &s) { return lv(s, A) && s.t.at(A).maps.size() > k; });
        x.add("unmap B #0", [=](Sys &s) { s.map_del(1, B, s.t[B].maps[0].id); }, [=](const Sys &s) { return lv(s, B) && s.t.at(B).maps.size() > 0; }); x.add("unmap unknown", [=](Sys &s) { s.map_del(1, A, 99); s.map_del(1, A, -1); s.map_del(1, -1, 0); s.map_del(1, 9999, 0); });
        x.add("write A", [=](Sys &s) { s.write(2, A, 0, b({0x10 + cur_n, 0x20, 0x30 + cur_n, 0x40})); }); x.add("write A[1]", [=](Sys &s) { s.write(2, A, 2, b({0x50 + cur_n, 0x51})); }); x.add("mwrite A[0]", [=](Sys &s) { s.mwrite(2, A, 0, b({0xff, 0xff}), b({1 << cur_n % 8, 0x80})); }); x.add("write B", [=](Sys &s) { s.write(2, B, 0, b({0x70 + cur_n, 0x71, 0x72, 0x73})); });
        x.add("atomic A[1]", [=](Sys &s) { s.atomic(2, s.elem(A, 1, 1), ATOMIC_OP_INC, b({1, 0})); }, [=](const Sys &s) { return lv(s, A); });
        x.add("del A", [=](Sys &s) { s.tag_del(2, A); }, [=](const Sys &s) { return lv(s, A); }); x.add("del B", [=](Sys &s) { s.tag_del(2, B); }, [=](const Sys &s) { return lv(s, B); }); x.add("grow B", [=](Sys &s) { s.tag_add(2, "B", DAX_INT, 6); }, [=](const Sys &s) { return lv(s, B) && s.t.at(B).count < 6; });
        x.add("c1 drops", [=](Sys &s) { s.disconnect(1); s.reconnect(1); }, [=](const Sys &s) { return s.cn[1].reg; });
        x.run(m); });
    run_forked("chain", []() {             // events at the destination, group and chained mappings, deletes in every order
        Sys m; m.boot(3, {"obs", "one", ""}); int t[4]; for (int k = 0; k < 4; k++) t[k] = m.tag_add(1, string(1, (char)('D' - k)), DAX_INT, 1); int a = t[0], bb = t[1], c = t[2], d = t[3]; m.sweep_sys = false; X x; x.name = "chain"; x.depth = thorough() ? 6 : 5; x.sweep = [](Sys &s) { s.sweep(true); };
        for (int k : {bb, c, d}) { m.ev_add(1, m.whole(k), EVENT_CHANGE, {}, EVENT_OPT_SEND_DATA); } for (auto p : std::vector<std::pair<int, int>>{{a, bb}, {a, c}, {a, d}, {bb, c}, {c, bb}, {d, a}}) m.map_add(2, m.whole(p.first), m.whole(p.second));
        int g = m.grp_add(1, {m.whole(a), m.whole(bb)});
        for (int k : {a, bb, c, d}) { x.add(sfmt("write %d", k), [=](Sys &s) { s.write(2, k, 0, b({0x10 * k + cur_n, k})); }); x.add(sfmt("del %d", k), [=](Sys &s) { s.tag_del(2, k); }, [=](const Sys &s) { return lv(s, k); }); if (k == a) for (int i = 0; i < 3; i++) x.add(sfmt("unmap #%d", i), [=](Sys &s) { s.map_del(2, a, s.t[a].maps[i].id); }, [=](const Sys &s) { return lv(s, a) && (int)s.t.at(a).maps.size() > i; }); }
        x.add("group write", [=](Sys &s) { if (lv(s, a) && lv(s, bb)) s.grp_write(1, g, b({0xa0 + cur_n, 1, 0xb0 + cur_n, 2})); }); x.add("remap a->b", [=](Sys &s) { s.map_add(2, s.whole(a), s.whole(bb)); }, [=](const Sys &s) { return lv(s, a) && lv(s, bb); });
        x.run(m); });
    run_forked("writes", []() {            // every kind of write over every range of the source tag triggers exactly the mappings it must
        Sys m; m.boot(2, {"obs", ""}); int A = m.tag_add(1, "A", DAX_INT, 4), B = m.tag_add(1, "B", DAX_INT, 4); m.write(1, A, 0, pat(8, 0x11)); m.write(1, B, 0, pat(8, 0x77)); m.sweep_sys = false; X x; x.name = "writes"; x.depth = 1;
        for (uint32_t so = 0; so < 4; so++) for (uint32_t sn = 1; so + sn <= 4; sn++) { H src = m.elem(A, so, sn), dst = m.elem(B, 4 - sn, sn);
            for (uint32_t o = 0; o < 8; o++) for (uint32_t n = 1; o + n <= 8; n++) {
                x.add(sfmt("elements %u+%u mapped, write %u+%u", so, sn, o, n), [=](Sys &s) { s.map_add(1, src, dst); s.write(1, A, o, pat(n, 0xc3)); s.sweep(false); });
                for (int mk : {0, 1, 2}) x.add(sfmt("elements %u+%u mapped, masked write %u+%u mask %d", so, sn, o, n, mk), [=](Sys &s) { s.map_add(1, src, dst); Bytes k(n, mk ? 0 : 0xff); if (mk) k[mk == 1 ? 0 : n - 1] = 0x3c; s.mwrite(1, A, o, pat(n, 0xc3), k); s.sweep(false); }); }
            for (uint32_t o = 0; o < 4; o++) for (uint32_t n = 1; o + n <= 4; n++) { H h = m.elem(A, o, n), g = m.elem(B, 0, 1);
                for (int op : {ATOMIC_OP_INC, ATOMIC_OP_NOT, ATOMIC_OP_XOR}) x.add(sfmt("elements %u+%u mapped, atomic %d on %u+%u", so, sn, op, o, n), [=](Sys &s) { s.map_add(1, src, dst); s.atomic(1, h, op, pat(n * 2, 0x5a)); s.sweep(false); });
                x.add(sfmt("elements %u+%u mapped, group write of %u+%u", so, sn, o, n), [=](Sys &s) { s.do_register(1, "grp"); s.map_add(1, src, dst); int id = s.grp_add(1, {g, h}); s.grp_write(1, id, pat(2 + n * 2, 0x5a)); s.sweep(false); }); } }
        x.run(m); });
    run_forked("overlap", []() {           // source and destination overlap inside one tag, short and long
        Sys m; m.boot(2, {"obs", ""}); int A = m.tag_add(1, "A", DAX_BYTE, 700), B = m.tag_add(1, "B", DAX_BOOL, 95); m.sweep_sys = false; X x; x.name = "overlap"; x.depth = 1;
        for (uint32_t n : {2u, 3u, 9u, 33u, 100u, 257u, 400u}) for (int sh : {1, 2, 7, 8, 16, 31, 64, 130, 256}) for (int dir : {1, -1}) { uint32_t so = 280, d = (uint32_t)(280 + dir * sh); if ((uint32_t)sh > n) continue; x.add(sfmt("%u bytes from %u to %u", n, so, d), [=](Sys &s) { s.write(1, A, 0, pat(700, 0x31)); s.map_add(1, H{A, so, 0, n, n, DAX_BYTE}, H{A, d, 0, n, n, DAX_BYTE}); s.write(1, A, so + n / 2, b({0x99})); s.sweep(true); s.write(1, A, 0, pat(700, 0x02)); s.sweep(true); }); }
        for (uint32_t n : {1u, 5u, 8u, 17u, 40u}) for (uint32_t so : {0u, 3u, 8u, 21u}) for (uint32_t d : {0u, 1u, 5u, 8u, 11u, 22u, 24u}) x.add(sfmt("%u bits from %u to %u", n, so, d), [=](Sys &s) { s.write(1, B, 0, pat(11, 0x5d)); s.map_add(1, s.elem(B, so, n), s.elem(B, d, n)); s.mwrite(1, B, so / 8, b({0xa7}), b({0xff})); s.sweep(true); s.write(1, B, 0, pat(11, 0x33)); s.sweep(true); });
        x.run(m); });
    run_forked("handles", []() {           // mappings whose ends are not inside their tags, read-only or virtual destinations
        Sys m; m.boot(3, {"obs", "one", ""}); int A = m.tag_add(1, "A", DAX_INT, 3), B = m.tag_add(1, "B", DAX_BYTE, 5), R = m.tag_add(1, "R", DAX_INT, 2, TAG_ATTR_OWNED | TAG_ATTR_READONLY), Q = m.tag_add(1, "Q", DAX_INT | DAX_QUEUE, 1), mt = m.cn[1].tagidx; m.sweep_sys = false; X x; x.name = "handles"; x.depth = 1;
        auto fire = [=](Sys &s) { s.write(2, A, 0, pat(6, 0x41)); s.write(2, B, 0, pat(5, 0x81)); s.sweep(true); };
        for (uint32_t so = 0; so < 7; so++) for (uint32_t sn = 1; sn < 4; sn++) for (uint32_t dO = 0; dO < 6; dO++) for (uint32_t dn = 1; dn < 6; dn++) x.add(sfmt("A %u n%u -> B %u n%u", so, sn, dO, dn), [=](Sys &s) { s.map_add(2, H{A, so, 0, sn, sn * 2, DAX_INT}, H{B, dO, 0, dn, dn, DAX_BYTE}); fire(s); });
        for (int i : {-1, 0, 5, 9, 10, 999, 0x7fffffff}) { x.add(sfmt("src %d", i), [=](Sys &s) { if (i != 0 && i != 5) s.map_add(2, H{i, 0, 0, 1, 4, DAX_DINT}, H{B, 0, 0, 4, 4, DAX_BYTE}); fire(s); }); x.add(sfmt("dst %d", i), [=](Sys &s) { s.map_add(2, H{A, 0, 0, 1, 2, DAX_INT}, H{i, 0, 0, 1, 4, DAX_DINT}); fire(s); }); }
        x.add("to ro", [=](Sys &s) { s.map_add(2, s.elem(A, 0, 1), s.elem(R, 0, 1)); fire(s); }); x.add("to ro by owner", [=](Sys &s) { s.map_add(1, s.elem(A, 0, 1), s.elem(R, 0, 1)); fire(s); }); x.add("from queue", [=](Sys &s) { s.map_add(1, s.whole(Q), s.elem(A, 0, 1)); fire(s); }); x.add("to queue", [=](Sys &s) { s.map_add(1, s.elem(A, 0, 1), s.whole(Q)); fire(s); });
        x.add("to module command", [=](Sys &s) { s.map_add(1, s.elem(B, 0, 1), H{mt, 77, 0, 1, 1, DAX_BYTE}); fire(s); });
        x.run(m); });
}
static Reg r07("C07", c07, "every source/destination bit offset and length with data patterns; every pair of types; all histories of map add / delete / cyclic and self mappings / tag delete / growth / writes of every kind up to the depth bound");
// ---------------------------------------------------------------- C08
static void c08() {
    for (auto &ty : types()) { string n = string("ranges-") + ty.n; run_forked(n.c_str(), [&]() {
        Sys m; m.boot(2, {"obs", ""}); uint32_t cnt = ty.t == DAX_BOOL ? 17 : 2; int pre = m.tag_add(1, "pre", DAX_DINT, 1), t = m.tag_add(1, "t", ty.t, cnt), z = m.tag_add(1, "z", DAX_DINT, 1); uint32_t sz = (uint32_t)m.t[t].data.size(); m.write(1, pre, 0, pat(4, 1)); m.write(1, z, 0, pat(4, 9)); m.write(1, t, 0, pat(sz, 0x21)); m.sweep_sys = false; X x; x.name = n; x.depth = 1;
        for (uint32_t o = 0; o <= sz + 1; o++) for (uint32_t l = 1; l <= sz + 1; l++) { if (ty.t == DAX_BOOL && o + l == sz + 1) continue;
            x.add(sfmt("override %u+%u", o, l), [=](Sys &s) { s.ov_add(1, t, o, pat(l, 0x51), pat(l, 0x0f)); s.sweep(true); s.ov_set(1, t, true); s.sweep(true); s.ov_get(1, t, 0, sz); s.write(1, t, 0, pat(sz, 0x77)); s.sweep(true); s.read(1, t, o, l); s.ov_get(1, t, o, l); s.ov_add(1, t, 0, Bytes(1, 0xc3), Bytes(1, 0x3c)); s.sweep(true); s.ov_del(1, t, o, Bytes(l, 0x33)); s.sweep(true); s.ov_get(1, t, 0, sz); s.ov_set(1, t, false); s.sweep(true); s.ov_set(1, t, true); s.ov_del(1, t, 0, Bytes(sz, 0xff)); s.sweep(true); s.ov_get(1, t, 0, sz); s.write(1, t, 0, pat(sz, 0x13)); s.sweep(true); }); }
        for (uint32_t o : {0xffffffffu, 0x80000000u, 0x7fffffffu}) { x.add(sfmt("override at 0x%x", o), [=](Sys &s) { s.ov_add(1, t, o, b({1, 2}), b({255, 255})); s.ov_add(1, t, 0, b({1}), b({255})); s.ov_del(1, t, o, b({255, 255})); s.ov_get(1, t, o, 2); s.ov_get(1, t, 0, o); s.sweep(true); }); }
        x.run(m); }); }
    run_forked("history", []() {
        Sys m; m.boot(3, {"obs", "one", ""}); int A = m.tag_add(1, "A", DAX_INT, 2), B = m.tag_add(1, "B", DAX_BOOL, 12), C = m.tag_add(1, "C", DAX_INT, 1); m.write(1, A, 0, b({0x11, 0x22, 0x33, 0x44})); m.write(1, B, 0, b({0x5a, 0x05})); X x; x.name = "history"; x.depth = thorough() ? 6 : 5; x.sweep = [](Sys &s) { s.sweep(true); };
        m.map_add(1, m.elem(A, 0, 1), m.whole(C)); m.ev_add(1, m.whole(A), EVENT_CHANGE, {}, EVENT_OPT_SEND_DATA);
        for (int t : {A, B}) { x.add(sfmt("add %d lo", t), [=](Sys &s) { s.ov_add(2, t, 0, b({0xf0}), b({0x3c})); }); x.add(sfmt("add %d lo again", t), [=](Sys &s) { s.ov_add(1, t, 0, b({0x5a}), b({0x7e})); }); x.add(sfmt("add %d hi", t), [=](Sys &s) { s.ov_add(1, t, 1, b({0x0a}), b({0x0f})); }); x.add(sfmt("set %d", t), [=](Sys &s) { s.ov_set(2, t, true); }); x.add(sfmt("clr %d", t), [=](Sys &s) { s.ov_set(2, t, false); }); x.add(sfmt("del %d part", t), [=](Sys &s) { s.ov_del(2, t, 0, b({0x0c})); }); x.add(sfmt("del %d all", t), [=](Sys &s) { s.ov_del(2, t, 0, b({0xff, 0xff})); }); x.add(sfmt("write %d", t), [=](Sys &s) { s.write(2, t, 0, b({cur_n & 1 ? 0x00 : 0xff, 0x07})); }); }
        x.add("add zero mask", [=](Sys &s) { s.ov_add(2, C, 0, b({0xff, 0xff}), b({0, 0})); }, [=](const Sys &) { return false; });
        x.add("mwrite A", [=](Sys &s) { s.mwrite(2, A, 0, b({0xff}), b({0x18})); }); x.add("inc A", [=](Sys &s) { s.atomic(2, s.elem(A, 0, 1), ATOMIC_OP_INC, b({1, 0})); }, [=](const Sys &s) { return lv(s, A); }); x.add("get A", [=](Sys &s) { s.ov_get(2, A, 0, 4); s.ov_get(2, A, 1, 2); s.ov_get(2, B, 0, 2); s.ov_get(2, 999, 0, 1); s.ov_get(2, A, 3, 2); });
        x.add("tag del A", [=](Sys &s) { s.tag_del(2, A); }); x.add("grow A", [=](Sys &s) { s.tag_add(2, "A", DAX_INT, 4); }, [=](const Sys &s) { return lv(s, A) && s.t.at(A).count < 4; });
        x.run(m); });
    run_forked("kinds", []() {             // which tags can be overridden
        Sys m; m.boot(3, {"obs", "one", ""}); int q = m.tag_add(1, "Q", DAX_INT | DAX_QUEUE, 1), r = m.tag_add(1, "R", DAX_INT, 1, TAG_ATTR_OWNED | TAG_ATTR_READONLY); uint32_t c = m.cdt_create(1, "ct", {{"a", DAX_INT, 1}, {"f", DAX_BOOL, 3}}); int u = m.tag_add(1, "U", c, 1); X x; x.name = "kinds"; x.depth = 3; x.sweep = [](Sys &s) { s.sweep(true); };
        for (int t : {q, r, u, 9, 10, 999, -1}) { x.add(sfmt("add %d", t), [=](Sys &s) { s.ov_add(2, t, 0, b({0x12, 0x34}), b({0xff, 0x7e})); }); x.add(sfmt("set %d", t), [=](Sys &s) { s.ov_set(2, t, true); }); x.add(sfmt("clr %d", t), [=](Sys &s) { if (t != q && t != 9 && t != 10) s.ov_set(2, t, false); }); x.add(sfmt("del %d", t), [=](Sys &s) { s.ov_del(2, t, 0, b({0xff, 0xff})); }); }
        x.run(m); });
}
static Reg r08("C08", c08, "every (offset,length) of an override on every type with the full add/set/write/get/partial delete/clear/delete cycle; all histories over two overridden tags with mappings, events, growth and deletion; override counters compared after every step");
// ---------------------------------------------------------------- C09
static void c09() {
    run_forked("members", []() {           // every pair of members over five kinds of ranges, read and written
        Sys m; m.boot(3, {"obs", "one", ""}); int A = m.tag_add(1, "A", DAX_INT, 3), B = m.tag_add(1, "B", DAX_BOOL, 20), C = m.tag_add(1, "C", DAX_LREAL, 2), R = m.tag_add(2, "R", DAX_BYTE, 2, TAG_ATTR_OWNED | TAG_ATTR_READONLY), O = m.tag_add(1, "O", DAX_BYTE, 2), Q = m.tag_add(1, "Q", DAX_INT | DAX_QUEUE, 1), dead = m.tag_add(1, "X", DAX_INT, 1), mp = m.tag_add(1, "M", DAX_INT, 1); m.tag_del(1, dead);
        m.write(1, A, 0, pat(6, 1)); m.write(1, B, 0, b({0xa5, 0x5a, 0x09})); m.write(1, C, 0, pat(16, 4)); m.write(2, R, 0, b({7, 8})); m.write(1, O, 0, b({9, 10})); m.ov_add(1, O, 0, b({0xf0}), b({0xff})); m.ov_set(1, O, true); m.write(1, Q, 0, b({1, 2})); m.write(1, Q, 0, b({3, 4})); m.map_add(1, m.elem(A, 1, 1), m.whole(mp)); m.ev_add(1, m.elem(A, 1, 2), EVENT_CHANGE, {}, EVENT_OPT_SEND_DATA); m.sweep_sys = false;
        std::vector<H> hs = {m.whole(A), m.elem(A, 1, 1), m.elem(A, 2, 1), m.whole(B), m.elem(B, 3, 2), m.elem(B, 6, 9), m.elem(B, 8, 8), m.elem(B, 19, 1), m.elem(C, 1, 1), m.elem(R, 1, 1), m.whole(O), m.whole(Q), H{dead, 0, 0, 1, 2, DAX_INT}, H{A, 5, 0, 1, 2, DAX_INT}, H{999, 0, 0, 1, 2, DAX_INT}, m.whole(mp)}; X x; x.name = "members"; x.depth = 1;
        for (size_t i = 0; i < hs.size(); i++) for (size_t j = 0; j <= hs.size(); j++) x.add(sfmt("group %zu,%zu", i, j), [=](Sys &s) { std::vector<H> v{hs[i]}; if (j < hs.size()) v.push_back(hs[j]); int g = s.grp_add(1, v); if (g < 0) return; s.grp_read(1, g); size_t n = 0; for (auto &h : v) n += h.size; s.grp_write(1, g, pat(n, 0x91)); s.sweep(false); s.grp_write(1, g, Bytes(n, 0)); s.sweep(false); s.grp_write(1, g, Bytes(n, 0xff)); s.sweep(false); s.grp_read(1, g); if (n > 1) s.grp_write(1, g, Bytes(n - 1, 0x33)); s.sweep(false); s.grp_del(1, g); s.grp_read(1, g); });
        x.run(m); });
    run_forked("history", []() {
        Sys m; m.boot(4, {"obs", "one", "two", ""}); int A = m.tag_add(3, "A", DAX_INT, 2), B = m.tag_add(3, "B", DAX_BOOL, 10); m.sweep_sys = false; X x; x.name = "history"; x.depth = thorough() ? 7 : 5; x.sweep = [](Sys &s) { s.sweep(false); };
        for (int c : {1, 2}) { x.add(sfmt("c%d group A", c), [=](Sys &s) { s.grp_add(c, {s.elem(A, 1, 1), s.elem(B, 2, 3)}); }, [=](const Sys &s) { return s.cn[c].open && lv(s, A); }); x.add(sfmt("c%d group B", c), [=](Sys &s) { s.grp_add(c, {s.whole(B)}); }, [=](const Sys &s) { return s.cn[c].open; });
            for (int g : {0, 1}) { x.add(sfmt("c%d del %d", c, g), [=](Sys &s) { s.grp_del(c, g); }, [=](const Sys &s) { return s.cn[c].open; }); x.add(sfmt("c%d read %d", c, g), [=](Sys &s) { s.grp_read(c, g); }, [=](const Sys &s) { return s.cn[c].open; }); x.add(sfmt("c%d write %d", c, g), [=](Sys &s) { s.grp_write(c, g, b({0x31 + cur_n, c, 0xff, 0x0f})); }, [=](const Sys &s) { return s.cn[c].open; }); } }
        x.add("c1 drop", [=](Sys &s) { s.disconnect(1); }, [=](const Sys &s) { return s.cn[1].open; }); x.add("c1 back", [=](Sys &s) { s.reconnect(1); s.do_register(1, "one"); }, [=](const Sys &s) { return !s.cn[1].open && s.next < 20; }); x.add("del A", [=](Sys &s) { s.tag_del(3, A); }, [=](const Sys &s) { return lv(s, A); }); x.add("c3 group", [=](Sys &s) { s.grp_add(3, {s.whole(B)}); s.grp_read(3, 0); s.grp_del(3, 0); s.grp_write(3, 0, b({1, 2})); });
        x.run(m); });
    run_forked("many", []() {              // more groups than the first allocation, deleted in blocks, bad ids, size limits
        Sys m; m.boot(3, {"obs", "one", ""}); int A = m.tag_add(1, "A", DAX_BYTE, 200), L = m.tag_add(1, "L", DAX_BYTE, 5000); m.write(1, A, 0, pat(200, 3)); m.sweep_sys = false; X x; x.name = "many"; x.depth = thorough() ? 6 : 5; x.sweep = [](Sys &s) { s.sweep(false); for (int g : {-1, 0, 1, 2, 3, 8, 15, 16, 17, 23, 31, 32, 33, 38}) s.grp_read(1, g); };
        auto add = [=](Sys &s, int n) { for (int k = 0; k < n; k++) { uint32_t u = (uint32_t)s.cn[1].grp.size(); s.grp_add(1, {s.elem(A, u, 1), s.elem(A, u + 50, 2)}); } };
        x.add("add 1", [=](Sys &s) { add(s, 1); }); x.add("add 15", [=](Sys &s) { add(s, 15); }, [](const Sys &s) { return s.cn[1].grp.size() < 34; }); x.add("add 16", [=](Sys &s) { add(s, 16); }, [](const Sys &s) { return s.cn[1].grp.size() < 34; });
        x.add("del first", [=](Sys &s) { for (auto &g : s.cn[1].grp) if (g.second.used) { s.grp_del(1, g.first); break; } }); x.add("del last", [=](Sys &s) { for (auto i = s.cn[1].grp.rbegin(); i != s.cn[1].grp.rend(); ++i) if (i->second.used) { s.grp_del(1, i->first); break; } }); x.add("del even", [=](Sys &s) { std::vector<int> v; for (auto &g : s.cn[1].grp) if (g.second.used && !(g.first & 1)) v.push_back(g.first); for (int i : v) s.grp_del(1, i); }); x.add("del bad", [=](Sys &s) { for (int g : {-1, 1000, 0x7fffffff, INT32_MIN}) s.grp_del(1, g); });
        x.add("write last", [=](Sys &s) { for (auto i = s.cn[1].grp.rbegin(); i != s.cn[1].grp.rend(); ++i) if (i->second.used) { s.grp_write(1, i->first, b({0xe0 + cur_n, 1, 2})); break; } });
        x.add("too big", [=](Sys &s) { s.grp_add(1, {H{L, 0, 0, 4000, 4000, DAX_BYTE}, H{L, 0, 0, 85, 85, DAX_BYTE}}); s.grp_add(1, {H{L, 0, 0, 5000, 5000, DAX_BYTE}}); std::vector<H> v(151, H{A, 0, 0, 1, 1, DAX_BYTE}); s.grp_add(1, v); });
        x.run(m); });
    run_forked("limits", []() {
        Sys m; m.boot(3, {"obs", "one", ""}); int L = m.tag_add(1, "L", DAX_BYTE, 5000), A = m.tag_add(1, "A", DAX_BYTE, 200); m.write(1, L, 0, pat(4000, 1)); m.sweep_sys = false; X x; x.name = "limits"; x.depth = 1;
        for (uint32_t n : {1u, 2u, 149u, 150u}) x.add(sfmt("%u members", n), [=](Sys &s) { std::vector<H> v; for (uint32_t k = 0; k < n; k++) v.push_back(H{A, k, 0, 1, 1, DAX_BYTE}); int g = s.grp_add(1, v); s.grp_read(1, g); s.grp_write(1, g, pat(n, 0x44)); s.sweep(false); s.grp_read(1, g); });
        for (uint32_t n : {4079u, 4080u, 4083u, 4084u, 4085u, 4088u, 4096u, 5000u}) x.add(sfmt("%u bytes", n), [=](Sys &s) { int g = s.grp_add(1, {H{L, 3, 0, n, n, DAX_BYTE}}); if (g < 0) return; s.grp_read(1, g); s.grp_write(1, g, pat(n, 0x44)); s.sweep(false); s.grp_read(1, g); });
        x.run(m); });
}
static Reg r09("C09", c09, "every pair of member kinds (partial, bit ranges, overridden, read-only, queue, deleted, out of range) read and written; all histories of add / delete / read / write / disconnect of two modules; growth of the group table; size limits");
// ---------------------------------------------------------------- C10
static void c10() {
    for (auto &ty : types()) if (ty.t != DAX_BOOL) { string n = string("ops-") + ty.n; run_forked(n.c_str(), [&]() {
        Sys m; m.boot(3, {"obs", "one", ""}); int pre = m.tag_add(1, "pre", DAX_DINT, 1), t = m.tag_add(1, "t", ty.t, 3), z = m.tag_add(1, "z", DAX_DINT, 1), mp = m.tag_add(1, "m", ty.t, 1); m.write(1, pre, 0, pat(4, 1)); m.write(1, z, 0, pat(4, 9)); uint32_t es = (uint32_t)m.tsize(ty.t); m.sweep_sys = false; m.map_add(1, m.elem(t, 1, 1), m.whole(mp)); m.ev_add(1, m.whole(t), EVENT_WRITE, {}, EVENT_OPT_SEND_DATA); m.ev_add(1, m.elem(t, 1, 1), EVENT_CHANGE);
        bool f = ty.t == DAX_REAL || ty.t == DAX_LREAL; X x; x.name = n; x.depth = 1; std::vector<Bytes> vals; if (!f) { vals = {Bytes(es, 0), Bytes(es, 0xff), pat(es, 0x53)}; Bytes o(es, 0); o[0] = 1; vals.push_back(o); Bytes mx(es, 0xff); mx[es - 1] = 0x7f; vals.push_back(mx); Bytes mn(es, 0); mn[es - 1] = 0x80; vals.push_back(mn); Bytes p(es, 0); p[0] = 0xf0; if (es > 1) p[1] = 0x0f; vals.push_back(p); } else for (double d : {0.0, 1.0, -1.0, 0.1, 1e10, -3.7e-5}) vals.push_back(ty.t == DAX_REAL ? val<float>((float)d) : val<double>(d));
        for (int op = 0; op <= ATOMIC_OP_XNOR + 1; op++) for (auto &iv : vals) for (auto &ov : vals) for (uint32_t e : {0u, 1u, 2u}) { if (e == 0 && &ov != &vals[0]) continue; x.add(sfmt("op %d [%u] %s by %s", op, e, srv::hex(iv).c_str(), srv::hex(ov).c_str()), [=](Sys &s) { s.write(1, t, e * es, iv); s.atomic(2, s.elem(t, e, 1), op, ov); s.sweep(false); }); }
        for (int op = 0; op <= ATOMIC_OP_XNOR + 1; op++) for (auto &ov : vals) for (uint32_t c : {2u, 3u}) x.add(sfmt("op %d x%u", op, c), [=](Sys &s) { s.write(1, t, 0, pat(3 * es, 0x35)); Bytes d; for (uint32_t k = 0; k < c; k++) d.insert(d.end(), ov.begin(), ov.end()); if (!f && es) d[d.size() - 1] ^= 0x21; s.atomic(2, s.elem(t, 3 - c, c), op, d); s.sweep(false); });
        for (int op : {ATOMIC_OP_INC, ATOMIC_OP_OR, ATOMIC_OP_NOT}) { for (uint32_t o = 0; o <= 3 * es + 1; o++) x.add(sfmt("op %d at byte %u", op, o), [=](Sys &s) { s.write(1, t, 0, pat(3 * es, 0x11)); s.atomic(2, H{t, o, 0, 1, es, ty.t}, op, vals[1]); s.sweep(false); }); x.add(sfmt("op %d count 4", op), [=](Sys &s) { s.atomic(2, H{t, 0, 0, 4, 4 * es, ty.t}, op, Bytes(4 * es, 0)); s.sweep(false); }); x.add(sfmt("op %d count 0", op), [=](Sys &s) { s.atomic(2, H{t, 0, 0, 0, 0, ty.t}, op, {}); s.sweep(false); }); }
        x.run(m); }); }
    run_forked("bits", []() {
        Sys m; m.boot(3, {"obs", "one", ""}); int t = m.tag_add(1, "t", DAX_BOOL, 24), mp = m.tag_add(1, "m", DAX_BOOL, 24); m.sweep_sys = false; m.map_add(1, m.whole(t), m.whole(mp)); m.ev_add(1, m.elem(t, 5, 6), EVENT_CHANGE, {}, 0); X x; x.name = "bits"; x.depth = 1;
        for (int op = 1; op <= ATOMIC_OP_XNOR; op++) for (uint32_t e = 0; e < 18; e++) for (uint32_t c = 1; e + c <= 24; c++) { if (!thorough() && c > 3 && c != 8 && c != 9 && c != 15 && e + c != 24) continue; x.add(sfmt("op %d %u+%u", op, e, c), [=](Sys &s) { for (auto &iv : {b({0xa5, 0x5a, 0xc3}), b({0, 0, 0}), b({255, 255, 255})}) for (int ov : {0xff, 0x00, 0x35}) { s.write(1, t, 0, iv); H h = s.elem(t, e, c); s.atomic(2, h, op, pat(h.size, ov)); s.sweep(false); } }); }
        x.run(m); });
    run_forked("history", []() {
        Sys m; m.boot(3, {"obs", "one", ""}); int A = m.tag_add(1, "A", DAX_INT, 2), B = m.tag_add(2, "B", DAX_BOOL, 20), R = m.tag_add(1, "R", DAX_DINT, 1, TAG_ATTR_OWNED | TAG_ATTR_READONLY), Q = m.tag_add(1, "Q", DAX_INT | DAX_QUEUE, 1); m.ev_add(1, m.whole(A), EVENT_GREATER, b({2, 0})); m.map_add(1, m.elem(A, 0, 1), H{B, 0, 0, 16, 2, DAX_BOOL}); m.sweep_sys = false; X x; x.name = "history"; x.depth = thorough() ? 6 : 5; x.sweep = [](Sys &s) { s.sweep(false); };
        for (int e : {0, 1}) { x.add(sfmt("inc A[%d]", e), [=](Sys &s) { s.atomic(1, H{A, (uint32_t)e * 2, 0, 1, 2, DAX_INT}, ATOMIC_OP_INC, b({2, 0})); }); x.add(sfmt("dec A[%d]", e), [=](Sys &s) { s.atomic(2, H{A, (uint32_t)e * 2, 0, 1, 2, DAX_INT}, ATOMIC_OP_DEC, b({3, 0})); }); }
        x.add("nand A", [=](Sys &s) { s.atomic(2, H{A, 0, 0, 2, 4, DAX_INT}, ATOMIC_OP_NAND, b({0xf0, 0xff, 0x0f, 0})); }); x.add("not B", [=](Sys &s) { s.atomic(2, s.elem(B, 3, 7), ATOMIC_OP_NOT, b({0, 0})); }); x.add("xor B", [=](Sys &s) { s.atomic(2, s.elem(B, 3, 7), ATOMIC_OP_XOR, b({0x55, 1})); }); x.add("write A", [=](Sys &s) { s.write(2, A, 0, b({0xff, 0x7f, 0, 0x80})); }); x.add("ro", [=](Sys &s) { s.atomic(2, s.whole(R), ATOMIC_OP_INC, b({1, 0, 0, 0})); }); x.add("ro owner", [=](Sys &s) { s.atomic(1, s.whole(R), ATOMIC_OP_INC, b({1, 0, 0, 0})); }); x.add("queue", [=](Sys &s) { s.atomic(1, H{Q, 0, 0, 1, 2, DAX_INT}, ATOMIC_OP_INC, b({1, 0})); }); x.add("del A", [=](Sys &s) { s.tag_del(2, A); }, [=](const Sys &s) { return lv(s, A); });
        x.run(m); });
}
static Reg r10("C10", c10, "every operation x type x initial value x operand x element (boundary values), multi-element ranges, every byte offset, every bit range of a BOOL array; histories mixing atomic operations, writes, events and mappings");
// ---------------------------------------------------------------- C11
static void c11() {
    run_forked("types", []() {             // every element type: order and contents over a full wrap of the ring and a growth
        Sys m; m.boot(2, {"obs", ""}); m.sweep_sys = false; X x; x.name = "types"; x.depth = 1; uint32_t c = m.cdt_create(1, "ct", {{"a", DAX_INT, 1}, {"f", DAX_BOOL, 3}, {"d", DAX_LREAL, 1}}); std::vector<uint32_t> T; for (auto &t : types()) T.push_back(t.t); T.push_back(c);
        for (uint32_t t : T) for (uint32_t n : {1u, 3u, 100u}) x.add(sfmt("queue 0x%x[%u]", t, n), [=](Sys &s) { int q = s.tag_add(1, "q", t | DAX_QUEUE, n); if (q < 0) return; uint32_t sz = (uint32_t)s.t[q].data.size(); int k = 0; s.read(1, q, 0, sz); for (int i = 0; i < 5; i++) s.write(1, q, 0, pat(sz, ++k)); for (int i = 0; i < 3; i++) s.read(1, q, 0, sz); for (int i = 0; i < 30; i++) s.write(1, q, 0, pat(sz, ++k)); for (int i = 0; i < 20; i++) s.read(1, q, 0, sz); for (int i = 0; i < 40; i++) s.write(1, q, 0, pat(sz, ++k)); for (int i = 0; i < 60; i++) s.read(1, q, 0, sz);
            for (uint32_t l = 0; l <= sz + 2 && l < 40; l++) for (uint32_t o : {0u, 1u}) { if (l == sz && !o) continue; if (l) s.write(1, q, o, pat(l, 0x66)); s.write(1, q, 0, pat(sz, ++k)); if (l) s.read(1, q, o, l); s.read(1, q, 0, sz); } s.mwrite(1, q, 0, pat(sz, 1), Bytes(sz, 255)); s.read(1, q, 0, sz); s.sweep(true); });
        x.run(m); });
    run_forked("history", []() {
        Sys m; m.boot(3, {"obs", "one", ""}); int p = m.tag_add(1, "P", DAX_INT | DAX_QUEUE, 1), q = m.tag_add(2, "Q", DAX_BYTE | DAX_QUEUE, 3), d = m.tag_add(2, "D", DAX_INT, 1); m.sweep_sys = false; m.ev_add(1, m.whole(p), EVENT_WRITE, {}, EVENT_OPT_SEND_DATA); X x; x.name = "history"; x.depth = thorough() ? 6 : 5;
        auto drain = [](Sys &s) { for (auto &t : s.t) if (t.second.live && t.second.queue) { uint32_t z = (uint32_t)t.second.data.size(); while (!t.second.q.empty()) s.read(1, t.first, 0, z); s.read(1, t.first, 0, z); } }; x.leaf = drain; x.sweep = [](Sys &s) { s.sweep(true); };
        for (int t : {p, q}) { uint32_t z = t == p ? 2 : 3; for (int n : {1, 7, 16}) { if (t == q && n == 7) continue; x.add(sfmt("push %d x%d", t, n), [=](Sys &s) { for (int k = 0; k < n; k++) s.write(1 + (k & 1), t, 0, pat(z, cur_n * 16 + k)); }, [=](const Sys &s) { return s.t.at(t).q.size() < 70; }); x.add(sfmt("pop %d x%d", t, n), [=](Sys &s) { for (int k = 0; k < n; k++) s.read(1 + (k & 1), t, 0, z); }); } }
        x.add("del P", [=](Sys &s) { s.tag_del(2, p); }); x.add("write D", [=](Sys &s) { s.write(1, d, 0, b({cur_n, 1})); });
        x.run(m); });
    run_forked("small-steps", []() {       // every push/pop sequence of single elements
        Sys m; m.boot(2, {"obs", ""}); int p = m.tag_add(1, "P", DAX_INT | DAX_QUEUE, 1); m.sweep_sys = false; X x; x.name = "small-steps"; x.depth = thorough() ? 12 : 9; for (int k = 0; k < 10; k++) m.write(1, p, 0, b({k, 0x40})); for (int k = 0; k < 6; k++) m.read(1, p, 0, 2);
        x.leaf = [=](Sys &s) { while (!s.t[p].q.empty()) s.read(1, p, 0, 2); s.read(1, p, 0, 2); };
        x.add("push", [=](Sys &s) { s.write(1, p, 0, b({cur_n, 1})); }); x.add("pop", [=](Sys &s) { s.read(1, p, 0, 2); }); x.add("push 5", [=](Sys &s) { for (int k = 0; k < 5; k++) s.write(1, p, 0, b({cur_n, 0x10 + k})); }, [=](const Sys &s) { return s.t.at(p).q.size() < 40; });
        x.run(m); });
}
static Reg r11("C11", c11, "every element type with wrap-around and growth, wrong sizes/offsets; all push/pop histories (single and block) of two queues by two modules with deletion, to the depth bound; FIFO order and contents of every element checked");
