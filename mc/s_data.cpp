// Tag data, directory and write protection (C01-C04)
#include "scn.h"
// ---------------------------------------------------------------- C01
static void c01() {
    // every range of every type
    for (auto &ty : types()) {
        string n = string("ranges-") + ty.n;
        run_forked(n.c_str(), [&]() {
            Sys m; m.boot(3, {"obs", "", ""}); uint32_t cnt = ty.t == DAX_BOOL ? 19 : 3;
            int a = m.tag_add(1, "before", DAX_DWORD, 1), t = m.tag_add(1, "t", ty.t, cnt), z = m.tag_add(2, "after", DAX_BYTE, 3); m.write(1, a, 0, b({0xa1, 0xa2, 0xa3, 0xa4})); m.write(1, z, 0, b({0xb1, 0xb2, 0xb3}));
            X x; x.name = n; x.depth = 2; x.sweep = [](Sys &s) { s.sweep(false); };
            uint32_t sz = (uint32_t)m.t[t].data.size();
            std::set<uint32_t> offs; for (uint32_t o = 0; o <= sz + 3; o++) offs.insert(o); 
            std::vector<uint32_t> len; for (uint32_t l = 1; l <= sz + 3; l++) len.push_back(l);
            for (uint32_t o : offs) for (uint32_t l : len) {
                if (ty.t == DAX_BOOL && o + l == sz + 1) continue;      // the server rounds the size of a bit string up
                if (sz > 12 && ((l > 3 && l < sz - 1 && l % 4 != 0) || (o > 2 && o < sz - 3 && o % 4 != 0))) continue;
                x.add(sfmt("write %u+%u", o, l), [=](Sys &s) { s.write(1 + (o & 1), t, o, pat(l, (int)(o * 16 + l))); });
                x.add(sfmt("read %u+%u", o, l), [=](Sys &s) { s.read(1, t, o, l); });
            }
            for (uint32_t o : {0xffffffffu, 0xfffffffcu, 0x80000000u, 0x7fffffffu, 0xfffff000u}) { x.add(sfmt("write 0x%x", o), [=](Sys &s) { s.write(1, t, o, b({1, 2, 3, 4})); }); x.add(sfmt("read 0x%x+4", o), [=](Sys &s) { s.read(1, t, o, 4); }); x.add(sfmt("read 0+0x%x", o), [=](Sys &s) { s.read(1, t, 0, o); }); x.add(sfmt("read 4+0x%x", o), [=](Sys &s) { s.read(1, t, 4, o); }); }
            x.run(m);
        });
    }
    // histories over several tags of different sizes, with deletion and growth in between
    run_forked("history", []() {
        Sys m; m.boot(3, {"obs", "one", ""}); X x; x.name = "history"; x.depth = thorough() ? 7 : 5; x.sweep = [](Sys &s) { s.sweep(false); };
        int t0 = m.tag_add(1, "A", DAX_INT, 2), t1 = m.tag_add(2, "B", DAX_BOOL, 9), t2 = m.tag_add(1, "C", DAX_LREAL, 1); 
        for (int t : {t0, t1, t2}) {
            uint32_t n = (uint32_t)m.t[t].data.size();
            for (uint32_t o = 0; o < n; o += n > 4 ? 4 : 1) x.add(sfmt("write %d.%u 1", t, o), [=](Sys &s) { if (s.live(t)) s.write(1, t, o, b({(int)(0x11 * (t - 9) + o)})); else s.write(1, t, o, b({1})); });
            x.add(sfmt("write %d all", t), [=](Sys &s) { s.write(2, t, 0, pat(n, t * 7)); });
            x.add(sfmt("write %d zero", t), [=](Sys &s) { s.write(2, t, 0, Bytes(n, 0)); });
            x.add(sfmt("write %d over", t), [=](Sys &s) { s.write(2, t, n, pat(2, 9)); });
        }
        x.add("grow A", [=](Sys &s) { s.tag_add(1, "A", DAX_INT, s.live(t0) ? s.t[t0].count + 2 : 2); }, [=](const Sys &s) { return s.t.at(t0).count < 8 && s.next < 20; });
        x.add("grow B", [=](Sys &s) { s.tag_add(2, "B", DAX_BOOL, s.live(t1) ? s.t[t1].count + 8 : 9); }, [=](const Sys &s) { return s.t.at(t1).count < 30 && s.next < 20; });
        x.add("del B", [=](Sys &s) { s.tag_del(1, t1); });
        x.add("add D", [=](Sys &s) { s.tag_add(1, "D", DAX_DINT, 1); }, [](const Sys &s) { return s.next < 22; });
        x.run(m);
    });
    // tags larger than one message
    run_forked("large", []() {
        Sys m; m.boot(2, {"obs", ""}); X x; x.name = "large"; x.depth = 3; x.sweep = [](Sys &s) { s.sweep(false); };
        int t = m.tag_add(1, "L", DAX_DINT, 1500), u = m.tag_add(1, "M", DAX_BYTE, 1); m.write(1, u, 0, b({0x5a}));
        for (uint32_t o : {0u, 1u, 1912u, 1920u, 4080u, 5996u}) for (uint32_t l : {1u, 4u, 4079u, 4080u}) { if ((l == 4079) && o != 0 && o != 1920) continue; x.add(sfmt("write %u+%u", o, l), [=](Sys &s) { s.write(1, t, o, pat(l, (int)(o + l))); }); }
        for (uint32_t l : {1u, 4087u, 4088u, 4089u, 4096u, 6000u, 8000u}) x.add(sfmt("read 0+%u", l), [=](Sys &s) { s.read(1, t, 0, l); });
        x.run(m);
    });
}
static Reg r01("C01", c01, "every read and write (offset, length) of every type, and all histories of writes, growth, deletion over three tags up to the depth bound");
// ---------------------------------------------------------------- C02
static void c02() {
    for (int init : {0x00, 0xff, 0x3c}) { string n = sfmt("all-masks-%02x", init); run_forked(n.c_str(), [&]() {
        Sys m; m.boot(2, {"obs", ""}); int t = m.tag_add(1, "t", DAX_BYTE, 3); m.write(1, t, 0, b({init, init, init})); X x; x.name = n; x.depth = 1; x.sweep = [](Sys &s) { s.sweep(false); };
        for (int mk = 0; mk < 256; mk++) for (int d : {0x00, 0xff, 0xa5, 0x5a, 0x01, 0x80}) x.add(sfmt("data %02x mask %02x", d, mk), [=](Sys &s) { s.mwrite(1, t, 1, b({d}), b({mk})); });
        if (init == 0xff) for (int mk = 0; mk < 256; mk++) for (int d : {0x00, 0x69}) x.add(sfmt("data %02x.. mask %02x..", d, mk), [=](Sys &s) { s.mwrite(1, t, 0, b({d, d ^ 0xff, d}), b({mk, (mk << 1) & 255, mk ^ 255})); });
        x.run(m); }); }
    for (auto &ty : types()) { string n = string("ranges-") + ty.n; run_forked(n.c_str(), [&]() {
        Sys m; m.boot(3, {"obs", "", ""}); uint32_t cnt = ty.t == DAX_BOOL ? 19 : 2;
        int a = m.tag_add(1, "before", DAX_DWORD, 1), t = m.tag_add(1, "t", ty.t, cnt), z = m.tag_add(2, "after", DAX_BYTE, 3); m.write(1, a, 0, b({0xa1, 0xa2, 0xa3, 0xa4})); m.write(1, z, 0, b({0xb1, 0xb2, 0xb3}));
        X x; x.name = n; x.depth = 2; x.sweep = [](Sys &s) { s.sweep(false); }; uint32_t sz = (uint32_t)m.t[t].data.size();
        for (uint32_t o = 0; o <= sz + 2; o++) for (uint32_t l = 1; l <= sz + 2; l++) {
            if (ty.t == DAX_BOOL && o + l == sz + 1) continue;
            if (sz > 8 && ((l > 3 && l < sz - 1 && l % 4 != 0) || (o > 2 && o < sz - 3 && o % 4 != 0))) continue;
            x.add(sfmt("mwrite %u+%u", o, l), [=](Sys &s) { s.mwrite(1 + (o & 1), t, o, pat(l, (int)(o * 16 + l)), pat(l, (int)(l * 51 + o * 3 + 1))); }); }
        for (uint32_t o : {0xffffffffu, 0xfffffffcu, 0x80000000u, 0x7fffffffu, 0xfffff000u}) x.add(sfmt("mwrite 0x%x", o), [=](Sys &s) { s.mwrite(1, t, o, b({1, 2, 3, 4}), b({255, 255, 255, 255})); });
        x.add("plain", [=](Sys &s) { s.write(1, t, 0, pat(sz, 99)); });
        x.run(m); }); }
    run_forked("history", []() {
        Sys m; m.boot(3, {"obs", "one", ""}); X x; x.name = "history"; x.depth = thorough() ? 6 : 5; x.sweep = [](Sys &s) { s.sweep(false); };
        int t0 = m.tag_add(1, "A", DAX_INT, 2), t1 = m.tag_add(2, "B", DAX_BOOL, 12);
        for (int t : {t0, t1}) { uint32_t n = (uint32_t)m.t[t].data.size();
            for (uint32_t o = 0; o < n; o += 1) { x.add(sfmt("mset %d.%u", t, o), [=](Sys &s) { s.mwrite(1, t, o, b({0xff}), b({1 << (o + t) % 8})); }); x.add(sfmt("mclr %d.%u", t, o), [=](Sys &s) { s.mwrite(2, t, o, b({0}), b({0x18})); }); }
            x.add(sfmt("mall %d", t), [=](Sys &s) { s.mwrite(2, t, 0, pat(n, 77), pat(n, 0x0f)); }); x.add(sfmt("write %d", t), [=](Sys &s) { s.write(1, t, 0, pat(n, t * 7)); }); x.add(sfmt("none %d", t), [=](Sys &s) { s.mwrite(2, t, 0, Bytes(n, 0xff), Bytes(n, 0)); }); }
        x.add("grow A", [=](Sys &s) { s.tag_add(1, "A", DAX_INT, s.live(t0) ? s.t[t0].count + 2 : 2); }, [=](const Sys &s) { return s.t.at(t0).count < 6 && s.next < 20; });
        x.add("del B", [=](Sys &s) { s.tag_del(1, t1); });
        x.run(m); });
    run_forked("large", []() {
        Sys m; m.boot(2, {"obs", ""}); X x; x.name = "large"; x.depth = 2; x.sweep = [](Sys &s) { s.sweep(false); };
        int t = m.tag_add(1, "L", DAX_DINT, 800), u = m.tag_add(1, "M", DAX_BYTE, 1); m.write(1, u, 0, b({0x5a}));
        for (uint32_t o : {0u, 1u, 1160u, 1161u, 3196u}) for (uint32_t l : {1u, 4u, 2039u, 2040u}) x.add(sfmt("mwrite %u+%u", o, l), [=](Sys &s) { s.mwrite(1, t, o, pat(l, (int)(o + l)), pat(l, (int)(3 * o + l))); });
        x.run(m); });
}
static Reg r02("C02", c02, "every mask byte, every (offset,length) of every type, and all histories of masked and plain writes of two modules up to the depth bound");
// ---------------------------------------------------------------- C03
static void c03() {
    run_forked("names", []() {
        Sys m; m.boot(2, {"obs", ""}); X x; x.name = "names"; x.depth = 1; x.sweep = [](Sys &s) { s.sweep(true); }; m.tag_add(1, "abc", DAX_INT, 1);
        auto nm = [&](const string &s) { x.add("add '" + s + "'", [=](Sys &y) { y.tag_add(1, s, DAX_INT, 1); }); };
        for (int c = 1; c < 256; c++) { nm(string(1, (char)c)); nm(string("a") + (char)c); nm(string("a") + (char)c + "b"); }
        nm(""); for (size_t l = 2; l < 80; l++) nm(string(l, 'x')); nm("abc"); nm("ab"); nm("abcd"); nm("_tagcount"); nm("_mobs"); nm("9a"); nm("_a"); nm("ABC"); for (size_t l : {30, 31, 32, 33, 34}) { nm(string(l, 'x') + "_"); nm("_" + string(l, 'x')); nm(string(l, 'x') + "-"); }
        x.run(m); });
    run_forked("types", []() {
        Sys m; m.boot(2, {"obs", ""}); X x; x.name = "types"; x.depth = 1; x.sweep = [](Sys &s) { s.sweep(true); }; m.tag_add(1, "ab", DAX_INT, 3); m.tag_add(1, "q", DAX_INT | DAX_QUEUE, 2); m.cdt_create(1, "ct", {{"a", DAX_INT, 2}, {"b", DAX_BOOL, 3}});
        auto ty = [&](const char *n, uint32_t t, uint32_t c) { string s = n; x.add(sfmt("add %s type 0x%x count %u", n, t, c), [=](Sys &y) { y.tag_add(1, s, t, c); }); };
        for (uint32_t t = 0; t < 512; t++) { ty("n", t, 2); ty("n", t | DAX_QUEUE, 2); if (t < 16) { ty("n", t | DAX_CUSTOM, 1); ty("n", t | DAX_CUSTOM | DAX_QUEUE, 3); } ty("ab", t, 3); }
        for (uint32_t t : std::vector<uint32_t>{DAX_BOOL, DAX_BYTE, DAX_INT, DAX_DINT, DAX_LREAL, DAX_CUSTOM | 2u}) { for (uint32_t c : {0u, 1u, 7u, 8u, 9u, 100u, 0x80000001u, 0x8000000u * 17u, 0xffffffffu}) { if ((t == DAX_BOOL) && c > 1000) continue; ty("n", t, c); }  }
        for (uint32_t c = 0; c < 9; c++) { ty("ab", DAX_INT, c); ty("q", DAX_INT | DAX_QUEUE, c); ty("q", DAX_INT, c); }
        x.run(m); });
    run_forked("history", []() {
        Sys m; m.boot(3, {"obs", "one", ""}); X x; x.name = "history"; x.depth = thorough() ? 6 : 5; x.sweep = [](Sys &s) { s.sweep(true); };
        struct { const char *n; uint32_t t; } N[] = {{"b", DAX_INT}, {"a", DAX_BOOL}, {"ab", DAX_DINT}, {"B", DAX_LREAL}, {"zz", DAX_BYTE}}; int first = m.next; int cap = first + 8;
        for (auto &n : N) { string nn = n.n; uint32_t t = n.t; x.add("add " + nn, [=](Sys &s) { s.tag_add(1, nn, t, 2); }, [=](const Sys &s) { return s.next < cap; }); }
        x.add("add b as owned", [=](Sys &s) { s.tag_add(1, "b", DAX_INT, 2, TAG_ATTR_OWNED); }, [=](const Sys &s) { return s.next < cap; });
        x.add("grow ab", [=](Sys &s) { MTag *q = s.byname("ab"); s.tag_add(2, "ab", DAX_DINT, q ? q->count + 3 : 1); }, [=](const Sys &s) { return s.next < cap; });
        x.add("shrink b", [=](Sys &s) { s.tag_add(2, "b", DAX_INT, 1); }, [=](const Sys &s) { return s.next < cap; });
        x.add("retype b", [=](Sys &s) { s.tag_add(2, "b", DAX_UINT, 1); }, [=](const Sys &s) { return s.next < cap; });
        for (int k = 0; k < 4; k++) x.add(sfmt("del #%d", k), [=](Sys &s) { s.tag_del(2, first + k); });
        x.add("write newest", [=](Sys &s) { if (s.live(s.next - 1)) s.write(1, s.next - 1, 0, b({0x77})); });
        x.add("reconnect", [=](Sys &s) { s.disconnect(1); s.reconnect(1); s.do_register(1, "one"); }, [=](const Sys &s) { return s.next < cap; });
        x.run(m); });
    run_forked("permutations", []() {      // every order of adding and then deleting five names, and re-adding
        Sys m; m.boot(2, {"obs", ""}); X x; x.name = "permutations"; x.depth = thorough() ? 9 : 7; x.sweep = [](Sys &s) { s.sweep(true); }; m.sweep_sys = false;
        static const char *N[] = {"m", "c", "x", "ma", "a"}; int cap = m.next + (thorough() ? 6 : 5);
        for (auto n : N) { string nn = n; x.add("add " + nn, [=](Sys &s) { s.tag_add(1, nn, DAX_INT, 1); }, [=](const Sys &s) { return !const_cast<Sys &>(s).byname(nn) && s.next < cap; }); x.add("del " + nn, [=](Sys &s) { s.tag_del(1, s.byname(nn)->idx); }, [=](const Sys &s) { return const_cast<Sys &>(s).byname(nn) != nullptr; }); }
        x.run(m); });
    run_forked("growth", []() {            // the tag array and the name index grow while tags are added and removed
        Sys m; m.boot(2, {"obs", ""}); X x; x.name = "growth"; x.depth = thorough() ? 7 : 5; x.sweep = [](Sys &s) { s.sweep(true); }; int first = m.next;
        auto addn = [=](Sys &s, int n, bool rev) { for (int k = 0; k < n; k++) { int v = s.next; string nm = rev ? sfmt("n%03d", 500 - v) : sfmt("n%03d", v); s.tag_add(1, nm, v % 3 ? DAX_INT : DAX_BOOL, 1 + v % 5); } };
        x.add("add 1", [=](Sys &s) { addn(s, 1, false); }); x.add("add 5 descending", [=](Sys &s) { addn(s, 5, true); }); x.add("add 9", [=](Sys &s) { addn(s, 9, false); }); x.add("add queue", [=](Sys &s) { s.tag_add(1, sfmt("q%d", s.next), DAX_INT | DAX_QUEUE, 1); });
        x.add("del first", [=](Sys &s) { for (int k = first; k < s.next; k++) if (s.live(k)) { s.tag_del(1, k); break; } }); x.add("del last", [=](Sys &s) { for (int k = s.next - 1; k >= first; k--) if (s.live(k)) { s.tag_del(1, k); break; } });
        x.add("grow first", [=](Sys &s) { for (int k = first; k < s.next; k++) if (s.live(k) && !s.t[k].queue) { s.tag_add(1, s.t[k].name, s.t[k].type, s.t[k].count + 8); break; } });
        x.add("write all", [=](Sys &s) { for (int k = first; k < s.next; k++) if (s.live(k) && !s.t[k].queue) s.write(1, k, 0, b({k & 255})); });
        x.run(m); });
    run_forked("queries", []() {           // lookups of names and indexes that do not exist
        Sys m; m.boot(2, {"obs", ""}); X x; x.name = "queries"; x.depth = 1; m.tag_add(1, "mid", DAX_INT, 2); m.tag_add(1, "n", DAX_INT, 1); int d = m.tag_add(1, "gone", DAX_INT, 1); m.tag_del(1, d);
        for (const char *n : {"", "a", "m", "mi", "mid", "midd", "n", "nn", "gone", "Mid", "_", "zzz", "_tagcount", "_tagcoun", "_tagcountt", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"}) { string nn = n; x.add("get '" + nn + "'", [=](Sys &s) { srv::Reply r = srv::tag_get(s.cn[1].c, nn); MTag *q = s.byname(nn); s.want(("get '" + nn + "'").c_str(), r, q != nullptr); if (q && srv::i32(r.data) != q->idx) violation("directory", "'%s' found as index %d instead of %d", nn.c_str(), srv::i32(r.data), q->idx); }); }
        for (int64_t i : {0LL, 1LL, 10LL, 11LL, 12LL, 13LL, 14LL, 15LL, 16LL, 17LL, 23LL, 24LL, 1000LL, 0x7fffffffLL, -1LL, -2LL, -0x80000000LL}) x.add(sfmt("get %d", (int)i), [=](Sys &s) { srv::Reply r = srv::tag_get(s.cn[1].c, (int)i); s.want(sfmt("get index %d", (int)i).c_str(), r, s.live((int)i) != nullptr); });
        for (int64_t i : {0LL, 1LL, 5LL, 9LL, 10LL, 11LL, 12LL, 14LL, 15LL, 16LL, 24LL, 1000LL, 0x7fffffffLL, -1LL, -2LL, -0x80000000LL}) x.add(sfmt("del %d", (int)i), [=](Sys &s) { s.tag_del(1, (int)i); s.sweep(true); });
        x.run(m); });
}
static Reg r03("C03", c03, "all one-byte variations of names, all type codes, boundary counts, all add/delete/grow/re-add orders up to the depth bound, growth of the tag array; complete directory compared by index and by name after every step");
// ---------------------------------------------------------------- C04
static void c04() {
    run_forked("paths", []() {             // read-only tags of module 1, the module tag and system tags, attacked through every writing request
        Sys m; m.boot(4, {"obs", "own", "two", ""}); X x; x.name = "paths"; x.depth = thorough() ? 3 : 2; x.sweep = [](Sys &s) { s.sweep(false); };
        int ro = m.tag_add(1, "RO", DAX_INT, 4, TAG_ATTR_OWNED | TAG_ATTR_READONLY), rb = m.tag_add(1, "RB", DAX_BOOL, 20, TAG_ATTR_OWNED | TAG_ATTR_READONLY), fr = m.tag_add(1, "FR", DAX_INT, 4), ow = m.tag_add(1, "OW", DAX_INT, 4, TAG_ATTR_OWNED);
        m.write(1, ro, 0, pat(8, 3)); m.write(1, rb, 0, pat(3, 0x55)); m.write(1, fr, 0, pat(8, 200)); int mt = m.cn[1].tagidx;
        for (int c : {1, 2, 3}) for (int t : {ro, rb, fr, ow}) {
            x.add(sfmt("c%d write %d", c, t), [=](Sys &s) { s.write(c, t, 1, b({0x99 ^ c, 0x11})); });
            x.add(sfmt("c%d mwrite %d", c, t), [=](Sys &s) { s.mwrite(c, t, 0, b({0xff, 0x42 + c}), b({0x0f, 0xf0})); });
            x.add(sfmt("c%d mwrite0 %d", c, t), [=](Sys &s) { s.mwrite(c, t, 0, b({0xff}), b({0x00})); });
            x.add(sfmt("c%d atomic %d", c, t), [=](Sys &s) { if (s.live(t)) s.atomic(c, s.elem(t, 1, t == rb ? 3 : 1), ATOMIC_OP_NOT, t == rb ? b({0}) : b({0, 0})); });
            if (t != rb) x.add(sfmt("c%d inc %d", c, t), [=](Sys &s) { if (s.live(t)) s.atomic(c, s.elem(t, 1, 1), ATOMIC_OP_INC, b({c, 0})); });
            if (c != 3) x.add(sfmt("c%d group write %d", c, t), [=](Sys &s) { if (!s.live(t)) return; int g = s.grp_add(c, {s.elem(fr, 0, 1), s.elem(t, 1, t == rb ? 7 : 1), s.elem(fr, 2, 1)}); size_t n = 4 + s.cn[c].grp[g].m[1].size; s.grp_write(c, g, pat(n, 0x61 + c)); s.grp_del(c, g); });
            x.add(sfmt("c%d map FR->%d", c, t), [=](Sys &s) { if (s.live(t) && s.live(fr)) { H d = s.elem(t, 0, t == rb ? 16 : 1); s.map_add(c, s.elem(fr, 2, 1), d); } });
            x.add(sfmt("c%d del %d", c, t), [=](Sys &s) { s.tag_del(c, t); }, [=](const Sys &) { return c == 3; });
        }
        for (int c : {1, 2, 3}) for (int t : {0, 2, 5, 7, 9, 10}) { x.add(sfmt("c%d write sys %d", c, t), [=](Sys &s) { s.write(c, t, 0, b({0x99})); }); x.add(sfmt("c%d mwrite sys %d", c, t), [=](Sys &s) { s.mwrite(c, t, 0, b({0x99}), b({0xff})); }); if (t < 9) x.add(sfmt("c%d inc sys %d", c, t), [=](Sys &s) { s.atomic(c, H{t, 0, 0, 1, 4, DAX_DINT}, ATOMIC_OP_INC, b({1, 0, 0, 0})); }); if (c == 2) { x.add(sfmt("map to sys %d", t), [=](Sys &s) { if (s.live(fr)) s.map_add(c, s.elem(fr, 0, 1), H{t, 0, 0, 1, 2, DAX_INT}); }); x.add(sfmt("group write sys %d", t), [=](Sys &s) { int g = s.grp_add(c, {H{t, 0, 0, 1, 4, DAX_DINT}}); s.grp_write(c, g, b({1, 2, 3, 4})); s.grp_del(c, g); }); } x.add(sfmt("c%d del sys %d", c, t), [=](Sys &s) { s.tag_del(c, t); }); }
        for (int c : {1, 2, 3}) for (uint32_t o : {0u, 7u, 8u, 11u, 12u, 13u, 40u, 76u, 77u}) { x.add(sfmt("c%d write module tag %u", c, o), [=](Sys &s) { s.write(c, mt, o, b({0x31 + c})); }); x.add(sfmt("c%d mwrite module tag %u", c, o), [=](Sys &s) { s.mwrite(c, mt, o, b({0x07}), b({0x1f})); }); if (o != 77) x.add(sfmt("c%d write2 module tag %u", c, o), [=](Sys &s) { s.write(c, mt, o, b({0x31 + c, 0x22})); }); }
        x.run(m); });
    run_forked("history", []() {           // ownership changes hands, mappings made before a tag became read only, reconnects
        Sys m; m.boot(4, {"obs", "own", "two", ""}); X x; x.name = "history"; x.depth = thorough() ? 6 : 5; x.sweep = [](Sys &s) { s.sweep(true); };
        int src = m.tag_add(1, "SRC", DAX_INT, 1); int cap = m.next + 5; auto T = [](const Sys &s) { MTag *q = const_cast<Sys &>(s).byname("T"); return q ? q->idx : -1; }; auto low = [=](const Sys &s) { return s.next < cap; };
        x.add("c1 add owned ro", [=](Sys &s) { s.tag_add(1, "T", DAX_INT, 1, TAG_ATTR_OWNED | TAG_ATTR_READONLY); }, low);
        x.add("c2 add owned", [=](Sys &s) { s.tag_add(2, "T", DAX_INT, 1, TAG_ATTR_OWNED); }, low);
        x.add("c2 add plain ro", [=](Sys &s) { s.tag_add(2, "T", DAX_INT, 1, TAG_ATTR_READONLY); }, low);
        x.add("c3 add plain", [=](Sys &s) { s.tag_add(3, "T", DAX_INT, 1); }, low);
        x.add("c3 grow", [=](Sys &s) { s.tag_add(3, "T", DAX_INT, 2); }, low);
        for (int c : {1, 2, 3}) x.add(sfmt("c%d write T", c), [=](Sys &s) { s.write(c, T(s), 0, b({0x10 + c, c})); }, [=](const Sys &s) { return T(s) >= 0; });
        x.add("c2 mwrite T", [=](Sys &s) { s.mwrite(2, T(s), 0, b({0xff, 0xff}), b({0xaa, 1})); }, [=](const Sys &s) { return T(s) >= 0; });
        x.add("map SRC->T", [=](Sys &s) { s.map_add(3, s.whole(src), s.elem(T(s), 0, 1)); }, [=](const Sys &s) { return T(s) >= 0; });
        x.add("write SRC", [=](Sys &s) { s.write(3, src, 0, val<uint16_t>((uint16_t)(0x4000 + cur_n))); });
        x.add("c1 drops", [=](Sys &s) { s.disconnect(1); s.reconnect(1); s.do_register(1, "own"); }, low);
        x.add("c2 drops", [=](Sys &s) { s.disconnect(2); s.reconnect(2); }, [=](const Sys &s) { return s.next < cap; });
        x.add("del T", [=](Sys &s) { s.tag_del(3, T(s)); }, [=](const Sys &s) { return T(s) >= 0; });
        x.run(m); });
}
static Reg r04("C04", c04, "every writing request (write, masked write, atomic, group, mapping, delete) of owner, other module and unregistered client against read-only, owned, free, module and system tags; histories in which ownership and read-only state change");
