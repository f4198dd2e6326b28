// C17 (names resolve to exactly what they denote) and C12 (types mean the same to server and client)
#include "cscn.h"
static const uint32_t BASE[] = {DAX_BOOL, DAX_BYTE, DAX_SINT, DAX_CHAR, DAX_WORD, DAX_INT, DAX_UINT, DAX_DWORD, DAX_DINT, DAX_UDINT, DAX_REAL, DAX_LWORD, DAX_LINT, DAX_ULINT, DAX_LREAL, DAX_TIME};
struct Den { uint64_t bit; uint32_t t, c; };
enum Verd { OK, REFUSE, ANY };
struct Expr { string s; int c; Verd v; Den d; };
struct Env { World w; dax_state *ds = nullptr; int wire = -1, idx = -1; uint64_t bytes = 0; string tag; };
static bool bitable(uint32_t t) { return !(t & DAX_CUSTOM) && t != DAX_BOOL && t != DAX_TIME && t != DAX_REAL && t != DAX_LREAL; }
static std::vector<uint32_t> some(uint32_t n, bool all) { std::vector<uint32_t> r; for (uint32_t i = 0; i < n; i++) if (all || n <= 6 || i < 2 || i == 7 || i == 8 || i == 9 || i == n - 1) r.push_back(i); return r; }
// all expressions that start with prefix denoting an array of cnt elements of type t at bit position pos
static void gen(const World &w, const string &pre, uint32_t t, uint32_t cnt, uint64_t pos, bool top, bool sure, std::vector<Expr> &out, int depth) {
    uint64_t es = t == DAX_BOOL ? 1 : w.size(t) * 8; bool full = depth == 0 || thorough();
    auto put = [&](const string &s, int c, Verd v, Den d = {}) { if (!sure && v == OK) v = ANY; out.push_back({s, c, v, d}); };
    auto counts = [&](uint32_t max) { std::set<uint32_t> s = {0, 1, max}; if (max > 2) s.insert(2); if (max > 8) { s.insert(7); s.insert(8); s.insert(max - 1); } if (full && max <= 20) for (uint32_t k = 1; k <= max; k++) s.insert(k); return s; };
    for (uint32_t c : counts(cnt)) put(pre, (int)c, OK, {pos, t, c ? c : cnt});
    put(pre, (int)cnt + 1, REFUSE); put(pre, -1, REFUSE); put(pre, 0x7fffffff, REFUSE); put(pre, (int)0x80000000, REFUSE);
    for (uint32_t i : some(cnt, full)) { string s = pre + sfmt("[%u]", i); for (uint32_t c : counts(cnt - i)) put(s, (int)c, OK, {pos + es * i, t, c ? c : 1}); put(s, (int)(cnt - i + 1), REFUSE); put(s, 0x7fffffff, REFUSE); put(s, -1, REFUSE); }
    for (const char *x : {"4294967296", "99999999999", "2147483647", "4294967295", "18446744073709551616"}) put(pre + "[" + x + "]", 0, REFUSE);
    put(pre + sfmt("[%u]", cnt), 0, REFUSE); put(pre + sfmt("[%u]", cnt), 1, REFUSE); put(pre + sfmt("[%u]", cnt + 7), 1, REFUSE);
    if (full) for (const char *x : {"[", "[]", "[0", "]", "[-1]", "[ 0]", "[0x1]", "[0]x", "[0]]", "[0][0]", "[a]", "[0 ]", "[+0]", ".", "..", ".nosuch", "[0].", "[0].nosuch", ".[0]", " ", "["}) put(pre + x, 0, REFUSE);
    std::vector<std::pair<string, uint32_t>> els; if (cnt == 1) els.push_back({pre, 0}); for (uint32_t i : some(cnt, false)) els.push_back({pre + sfmt("[%u]", i), i});
    for (auto &e : els) { uint64_t p = pos + es * e.second;
        if (bitable(t)) { uint32_t nb = (uint32_t)es; for (uint32_t k : some(nb, full && depth == 0)) { string s = e.first + sfmt(".%u", k); for (uint32_t c : counts(nb - k)) put(s, (int)c, OK, {p + k, DAX_BOOL, c ? c : 1}); put(s, (int)(nb - k + 1), REFUSE); put(s, 0x7fffffff, REFUSE); }
            put(e.first + sfmt(".%u", nb), 0, REFUSE); put(e.first + sfmt(".%u", nb + 1), 0, REFUSE); put(e.first + ".256", 0, REFUSE); put(e.first + ".264", 1, REFUSE); put(e.first + ".4294967296", 0, REFUSE); put(e.first + ".0x", 0, REFUSE); put(e.first + ".1.1", 0, REFUSE); put(e.first + ".1a", 0, REFUSE); }
        else if (!(t & DAX_CUSTOM)) { put(e.first + ".0", 0, REFUSE); }
        else { put(e.first + ".0", 0, REFUSE); uint64_t q = 0; for (auto &m : w.T.at(t).m) { q = World::mpos(q, m.t); gen(w, e.first + "." + m.n, m.t, m.c, p + q, false, sure, out, depth + 1); q += w.mbits(m); } } }
    if (cnt > 1 && (t & DAX_CUSTOM)) { auto &m = w.T.at(t).m[0]; if (top) { put(pre + "." + m.n, 0, REFUSE); } }
    if (cnt > 1 && bitable(t)) put(pre + ".0", 0, REFUSE);
    if (cnt > 1 && bitable(t)) put(pre + sfmt("[%u].0", cnt), 0, REFUSE);
    if (t & DAX_CUSTOM) put(pre + sfmt("[%u].", cnt) + w.T.at(t).m[0].n, 0, REFUSE);
}
static Bytes rawread(Env &e) { Bytes r; for (uint64_t o = 0; o < e.bytes; o += 4000) { uint32_t n = (uint32_t)std::min<uint64_t>(4000, e.bytes - o); auto v = srv::tread(e.wire, e.idx, (uint32_t)o, n); if (v.err || v.data.size() != n) violation("setup", "raw read of %lu+%u failed (%d)", o, n, v.err); r.insert(r.end(), v.data.begin(), v.data.end()); } return r; }
static void rawwrite(Env &e, const Bytes &d) { for (uint64_t o = 0; o < d.size(); o += 4000) { auto v = srv::twrite(e.wire, e.idx, (uint32_t)o, Bytes(d.begin() + (long)o, d.begin() + (long)std::min<uint64_t>(o + 4000, d.size()))); if (v.err) violation("setup", "raw write failed (%d)", v.err); } }
static bool gb(const Bytes &v, uint64_t i) { return v[i / 8] >> (i % 8) & 1; }
static void sb(Bytes &v, uint64_t i, bool x) { if (x) v[i / 8] |= (uint8_t)(1 << (i % 8)); else v[i / 8] &= (uint8_t)~(1 << (i % 8)); }
static void cmp_raw(Env &e, const Bytes &want, const Expr &x, const char *what) { Bytes got = rawread(e); S->checks++; if (got == want) return;
    for (uint64_t i = 0; i < want.size() * 8; i++) if (gb(got, i) != gb(want, i)) violation("wrong-bits", "%s through '%s' count %d: bit %lu of the tag is %d, expected %d (denoted bits %lu..%lu)", what, x.s.c_str(), x.c, i, gb(got, i), gb(want, i), x.d.bit, x.d.bit + (x.d.t == DAX_BOOL ? x.d.c : e.w.size(x.d.t) * 8 * x.d.c) - 1); }
static void check_expr(Env &e, const Expr &x, bool data) {
    tag_handle h; memset(&h, 0x77, sizeof h); int r = -1; char *nm = nullptr; string back; tag_handle h2; memset(&h2, 0, sizeof h2); int r2 = 0;
    cli::call(1, [&]() { CBuf s(Bytes(x.s.begin(), x.s.end())); CBuf z(Bytes(x.s.size() + 1, 0)); memcpy(z.p, x.s.data(), x.s.size()); r = api::dax_tag_handle(e.ds, &h, (char *)z.p, x.c); });
    S->checks++;
    if (x.v == REFUSE) { if (r == 0) violation("accepted", "'%s' with count %d was accepted although it denotes nothing (byte %u bit %u count %u size %u)", x.s.c_str(), x.c, h.byte, h.bit, h.count, h.size); return; }
    if (x.v == ANY && r) return;
    if (r) violation("refused", "'%s' with count %d was refused (%d)", x.s.c_str(), x.c, r);
    uint64_t nb = x.d.t == DAX_BOOL ? x.d.c : e.w.size(x.d.t) * 8 * x.d.c; uint32_t sz = (uint32_t)(x.d.t == DAX_BOOL ? (x.d.bit % 8 + x.d.c + 7) / 8 : nb / 8);
    if (h.index != e.idx || (uint64_t)h.byte * 8 + h.bit != x.d.bit || h.bit > 7 || h.count != x.d.c || h.type != x.d.t || h.size != sz) violation("handle", "'%s' count %d resolves to index %d byte %u bit %u count %u size %u type 0x%x; expected index %d bit position %lu count %u size %u type 0x%x", x.s.c_str(), x.c, h.index, h.byte, h.bit, h.count, h.size, h.type, e.idx, x.d.bit, x.d.c, sz, x.d.t);
    cli::call(1, [&]() { nm = api::dax_fqn(e.ds, h); if (nm) { back = nm; r2 = api::dax_tag_handle(e.ds, &h2, nm, (int)h.count); api::c_free(nm); } });
    if (!nm) violation("fqn", "no name for the handle of '%s' count %d", x.s.c_str(), x.c);
    if (r2 || h2.index != h.index || h2.byte != h.byte || h2.bit != h.bit || h2.count != h.count || h2.size != h.size || h2.type != h.type) violation("fqn", "the name '%s' given back for '%s' count %d resolves to something else (error %d byte %u bit %u count %u size %u type 0x%x)", back.c_str(), x.s.c_str(), x.c, r2, h2.byte, h2.bit, h2.count, h2.size, h2.type);
    if (!data) return;
    for (int bg : {0x00, 0xff}) { Bytes base((size_t)e.bytes, (uint8_t)bg); base[0] ^= 0x18; rawwrite(e, base);
        Bytes d = bg ? pat(sz, 0x1b) : pat(sz, 0xe6); int rr = 0;
        cli::call(1, [&]() { CBuf q(d); rr = api::dax_tag_write(e.ds, h, q.p); }); cli::must(rr, sfmt("writing '%s' count %d", x.s.c_str(), x.c).c_str());
        Bytes want = base; for (uint64_t k = 0; k < nb; k++) sb(want, x.d.bit + k, gb(d, k)); cmp_raw(e, want, x, "write");
        Bytes in; cli::call(1, [&]() { CBuf q(sz); rr = api::dax_tag_read(e.ds, h, q.p); in = q.get(); }); cli::must(rr, sfmt("reading '%s' count %d", x.s.c_str(), x.c).c_str());
        for (uint64_t k = 0; k < nb; k++) { if (gb(in, k) != gb(d, k)) violation("wrong-bits", "reading back '%s' count %d: bit %lu is wrong", x.s.c_str(), x.c, k); }
        Bytes m = pat(sz, 0x35), d2 = pat(sz, 0x81); cli::call(1, [&]() { CBuf q(d2), mm(m); rr = api::dax_tag_mask(e.ds, h, q.p, mm.p); }); cli::must(rr, "masked write");
        for (uint64_t k = 0; k < nb; k++) if (gb(m, k)) sb(want, x.d.bit + k, gb(d2, k)); cmp_raw(e, want, x, "masked write");
        if (bg == 0) { Bytes o = pat(sz, 0x5c); cli::call(1, [&]() { CBuf q(o); rr = api::dax_tag_add_override(e.ds, h, q.p); if (!rr) rr = api::dax_tag_set_override(e.ds, h); }); cli::must(rr, "override");
            Bytes w2 = want; for (uint64_t k = 0; k < nb; k++) sb(w2, x.d.bit + k, gb(o, k)); cmp_raw(e, w2, x, "override");
            cli::call(1, [&]() { rr = api::dax_tag_del_override(e.ds, h); }); cli::must(rr, "removing the override"); cmp_raw(e, want, x, "after removing the override"); } }
}
static uint32_t mk(Env &e, const Typ &y0) { Typ y = y0; auto r = srv::cdt_create(e.wire, e.w.def(y)); if (r.err) violation("refused", "type %s refused (%d)", e.w.def(y).c_str(), r.err); y.id = (uint32_t)srv::i32(r.data); e.w.T[y.id] = y; return y.id; }
static void mktag(Env &e, const string &n, uint32_t t, uint32_t c) { auto r = srv::tag_add(e.wire, n, t, c); if (r.err) violation("refused", "tag %s of type 0x%x[%u] refused (%d)", n.c_str(), t, c, r.err); e.idx = srv::i32(r.data); e.tag = n; e.bytes = t == DAX_BOOL ? (c + 7) / 8 : e.w.size(t) * c; }
static void bootc(Env &e) { srv::load(); cli::load(); srv::boot(); e.wire = srv::connect(); srv::reg(e.wire, "wire"); e.ds = cli::open(1, "cl"); }
struct In { uint32_t i0, i1, i2; };
static In inner(Env &e) { In r; r.i0 = mk(e, {"I0", {{"a", DAX_BOOL, 1}}}); r.i1 = mk(e, {"I1", {{"a", DAX_BOOL, 3}, {"bb", DAX_INT, 1}, {"c", DAX_BOOL, 2}}}); r.i2 = mk(e, {"I2", {{"x", DAX_BYTE, 1}, {"y", r.i1, 2}, {"z", DAX_BOOL, 1}}}); return r; }
static std::vector<std::vector<Mem>> layouts(const In &in, int maxlen) {
    std::vector<Mem> al = {{"", DAX_BOOL, 1}, {"", DAX_BOOL, 9}, {"", DAX_BYTE, 2}, {"", DAX_INT, 1}, {"", DAX_DINT, 3}, {"", in.i0, 1}, {"", in.i1, 2}, {"", in.i2, 1}, {"", DAX_BOOL, 6}, {"", DAX_LREAL, 1}, {"", DAX_BOOL, 300}};
    std::vector<std::vector<Mem>> out; size_t n = al.size(); const char *nm[] = {"m", "mm", "m_3"};
    for (size_t a = 0; a < n; a++) { auto A = al[a]; A.n = nm[0]; out.push_back({A}); for (size_t c = 0; c < n && maxlen > 1; c++) { auto B = al[c]; B.n = nm[1]; out.push_back({A, B}); for (size_t d = 0; d < n && maxlen > 2; d++) { auto D = al[d]; D.n = nm[2]; if (!thorough() && (a > 8 || c > 7 || d > 3 || a == 2 || c == 4)) continue; out.push_back({A, B, D}); } } }
    return out;
}
static void c17() {
    run_forked("base", []() { Env e0; bootc(e0); Explorer<Nil> x; x.name = "base"; x.depth = 1; x.dedupe = false; static Env e; e = e0;
        for (uint32_t t : BASE) for (uint32_t c : {1u, 2u, 3u, 7u, 8u, 9u, 17u, 24u}) x.add(sfmt("%s[%u]", e.w.tname(t).c_str(), c), [=](Nil &) { e = e0; mktag(e, "T", t, c); std::vector<Expr> v; gen(e.w, "T", t, c, 0, true, true, v, 0); for (auto &q : v) { pet(); S->transitions++; check_expr(e, q, true); } });
        x.add("no such tag", [=](Nil &) { e = e0; mktag(e, "T", DAX_INT, 1); for (const char *s : {"", "U", "t", "T1", "[0]", ".T", " T", "TT", "_T"}) check_expr(e, {s, 0, REFUSE, {}}, false); });
        x.add("long name", [=](Nil &) { e = e0; string n(32, 'n'); mktag(e, n, DAX_INT, 2); std::vector<Expr> v; gen(e.w, n, DAX_INT, 2, 0, true, true, v, 0); for (auto &q : v) check_expr(e, q, true); check_expr(e, {n + "n", 0, REFUSE, {}}, false); });
        Nil m; x.run(m); });
    run_forked("types", []() { Env e0; bootc(e0); In in = inner(e0); Explorer<Nil> x; x.name = "types"; x.depth = 1; x.dedupe = false; static Env e;
        for (auto &L : layouts(in, 3)) for (uint32_t c : {1u, 3u}) { if (c == 3 && L.size() == 3 && !thorough()) continue; Typ y{"O", L}; x.add(e0.w.def(y) + sfmt(" [%u]", c), [=](Nil &) { e = e0; uint32_t id = mk(e, y); mktag(e, "T", id, c); std::vector<Expr> v; gen(e.w, "T", id, c, 0, true, true, v, 0); size_t k = 0; for (auto &q : v) { pet(); S->transitions++; check_expr(e, q, thorough() || L.size() < 2 || k % (L.size() == 2 ? 3 : 11) == 0); if (q.v == OK) k++; } }); }
        Nil m; x.run(m); });
    run_forked("large", []() { Env e0; bootc(e0); In in = inner(e0); Explorer<Nil> x; x.name = "large"; x.depth = 1; x.dedupe = false; static Env e; (void)in;
        struct L { uint32_t t, c; }; for (auto l : std::vector<L>{{DAX_BYTE, 4081}, {DAX_BYTE, 9001}, {DAX_DINT, 2500}, {DAX_BOOL, 40001}, {DAX_BOOL, 32705}, {DAX_LREAL, 1100}, {in.i2, 600}, {in.i1, 1363}})
            for (uint32_t from : {0u, 1u, 3u, 8u, 13u}) for (uint32_t drop : {0u, 1u, 5u, 8u}) x.add(sfmt("%s[%u] from %u drop %u", e0.w.tname(l.t).c_str(), l.c, from, drop), [=](Nil &) { e = e0; mktag(e, "T", l.t, l.c); uint32_t n = l.c - from - drop; uint64_t es = l.t == DAX_BOOL ? 1 : e.w.size(l.t) * 8; Expr q{sfmt("T[%u]", from), (int)n, OK, {from * es, l.t, n}};
                tag_handle h; int r = 0; cli::call(1, [&]() { r = api::dax_tag_handle(e.ds, &h, (char *)q.s.c_str(), (int)n); }); cli::must(r, "large handle");
                for (int bg : {0, 0xff}) { Bytes base((size_t)e.bytes, (uint8_t)bg); rawwrite(e, base); Bytes d = pat(h.size, 0x21); cli::call(1, [&]() { CBuf w(d); r = api::dax_tag_write(e.ds, h, w.p); }); cli::must(r, "large write"); Bytes want = base; for (uint64_t k = 0; k < es * n; k++) sb(want, q.d.bit + k, gb(d, k)); cmp_raw(e, want, q, "large write");
                    Bytes in2; cli::call(1, [&]() { CBuf w(h.size); r = api::dax_tag_read(e.ds, h, w.p); in2 = w.get(); }); cli::must(r, "large read"); for (uint64_t k = 0; k < es * n; k++) if (gb(in2, k) != gb(d, k)) violation("wrong-bits", "large read: bit %lu wrong", k);
                    Bytes mk2 = pat(h.size, 0x6b), d2 = pat(h.size, 0x93); cli::call(1, [&]() { CBuf w(d2), mm(mk2); r = api::dax_tag_mask(e.ds, h, w.p, mm.p); }); cli::must(r, "large masked write"); for (uint64_t k = 0; k < es * n; k++) if (gb(mk2, k)) sb(want, q.d.bit + k, gb(d2, k)); cmp_raw(e, want, q, "large masked write"); }
                Bytes o((size_t)h.size, 0x5a); cli::call(1, [&]() { CBuf w(o); r = api::dax_tag_add_override(e.ds, h, w.p); }); if (h.size > 2050 && r == 0) violation("accepted", "an override larger than a message was accepted"); });
        Nil m; x.run(m); });
}
static Reg r17("C17", c17, "all tag expressions (plain, indexed, counted, member paths, bit numbers, malformed and out-of-range variants) of every tag of the enumerated base types, counts and compound layouts; each valid one is written, masked, overridden and read through on two backgrounds and compared bit by bit with the tag in the server, and its given-back name resolved again");
// ------------------------------------------------------------------ C12
static void iter_cb(cdt_iter m, void *u) { ((std::vector<cdt_iter> *)u)->push_back(m); }
static void delZ(Env &e) { int zi = srv::i32(srv::tag_get(e.wire, "Z").data), r = 0; cli::call(1, [&]() { r = api::dax_tag_del(e.ds, zi); }); cli::must(r, "deleting a tag"); }   // through the client, whose tag cache would otherwise keep it
static void check_type(Env &e, uint32_t id, uint32_t tagcount) {
    const Typ &y = e.w.T.at(id); string def = e.w.def(y); S->checks++;
    for (int form = 0; form < 2; form++) { auto r = form ? srv::cdt_get(e.wire, id) : srv::cdt_get(e.wire, y.n); if (r.err) violation("lost", "type %s is not found by %s (%d)", def.c_str(), form ? "id" : "name", r.err); if ((uint32_t)srv::i32(r.data) != id) violation("definition", "type %s has id 0x%x, asked 0x%x", def.c_str(), srv::i32(r.data), id); string d((const char *)r.data.data() + 4, strnlen((const char *)r.data.data() + 4, r.data.size() - 4)); if (d != def) violation("definition", "type %s is returned as %s", def.c_str(), d.c_str()); }
    uint64_t sz = e.w.size(id); int cs = 0; tag_type ct = 0; string cn; int mc = 0, ir = 0; std::vector<cdt_iter> its; std::vector<string> names;
    cli::call(1, [&]() { ct = api::dax_string_to_type(e.ds, (char *)y.n.c_str()); cs = api::dax_get_typesize(e.ds, id); const char *n = api::dax_type_to_string(e.ds, id); cn = n ? n : "(null)"; mc = api::dax_cdt_member_count(e.ds, id); ir = api::dax_cdt_iter(e.ds, id, &its, iter_cb); for (auto &i : its) names.push_back(i.name); });
    if (ct != id || cn != y.n) violation("definition", "the client maps %s to type 0x%x / 0x%x to %s", y.n.c_str(), ct, id, cn.c_str());
    if ((uint64_t)cs != sz) violation("size", "the client computes %d bytes for %s, expected %lu", cs, def.c_str(), sz);
    if (mc != (int)y.m.size() || ir || its.size() != y.m.size()) violation("definition", "the client sees %d members (%zu iterated, error %d) in %s", mc, its.size(), ir, def.c_str());
    std::vector<uint8_t> used(sz * 8, 0); uint64_t p = 0;
    for (size_t k = 0; k < its.size(); k++) { auto &m = y.m[k]; p = World::mpos(p, m.t); if (names[k] != m.n || its[k].type != m.t || its[k].count != (int)m.c) violation("definition", "member %zu of %s is seen as %s type 0x%x[%d]", k, def.c_str(), names[k].c_str(), its[k].type, its[k].count);
        uint64_t at = (uint64_t)its[k].byte * 8 + (uint64_t)its[k].bit, n = e.w.mbits(m); for (uint64_t q = 0; q < n; q++) { if (at + q >= used.size()) violation("layout", "member %s of %s lies outside the type", m.n.c_str(), def.c_str()); if (used[at + q]++) violation("layout", "member %s of %s overlaps another member", m.n.c_str(), def.c_str()); }
        if (at != p) violation("layout", "member %s of %s is at bit %lu, expected %lu", m.n.c_str(), def.c_str(), at, p); p += n; }
    // what the server allocates
    auto r = srv::tag_add(e.wire, "Z", id, tagcount); if (r.err) violation("refused", "tag of type %s refused (%d)", def.c_str(), r.err); int zi = srv::i32(r.data); uint32_t tot = (uint32_t)(sz * tagcount);
    auto probe = [&](uint32_t n, bool ok) { auto q = srv::tread(e.wire, zi, 0, n); if (n <= 4000 && (q.err == 0) != ok) violation("size", "the server %s a read of %u bytes from %s[%u] of %u bytes", q.err ? "refuses" : "accepts", n, def.c_str(), tagcount, tot); }; probe(tot, true); probe(tot + 1, false);
    // every member handle of the client inside the server's bounds and disjoint
    cli::call(1, [&]() { tag_handle h; std::vector<uint8_t> u2(tot * 8, 0); for (uint32_t i = 0; i < tagcount; i++) for (auto &m : y.m) { string s = tagcount > 1 ? sfmt("Z[%u].%s", i, m.n.c_str()) : "Z." + m.n; int rr = api::dax_tag_handle(e.ds, &h, (char *)s.c_str(), 0); if (rr) violation("layout", "%s of %s can't be resolved (%d)", s.c_str(), def.c_str(), rr); uint64_t at = (uint64_t)h.byte * 8 + h.bit; for (uint64_t q = 0; q < e.w.mbits(m); q++) { if (at + q >= u2.size() || u2[at + q]++) violation("layout", "%s of %s overlaps another member or leaves the tag", s.c_str(), def.c_str()); } } });
    // idempotent / conflicting redefinition
    r = srv::cdt_create(e.wire, def); if (r.err || (uint32_t)srv::i32(r.data) != id) violation("redefine", "the same definition again: error %d id 0x%x, expected id 0x%x", r.err, srv::i32(r.data), id);
    std::vector<string> diff = {def + ":extra,INT,1", y.n + ":" + y.m[0].n + "x," + e.w.tname(y.m[0].t) + sfmt(",%u", y.m[0].c), y.n + ":other,LREAL,1"}; { Typ z = y; z.m.back().c++; diff.push_back(e.w.def(z)); z = y; z.m[0].t = z.m[0].t == DAX_INT ? DAX_UINT : DAX_INT; diff.push_back(e.w.def(z)); if (y.m.size() > 1) { z = y; std::swap(z.m[0], z.m[1]); diff.push_back(e.w.def(z)); z = y; z.m.pop_back(); diff.push_back(e.w.def(z)); } }
    for (auto &d : diff) { if (d == def) continue; r = srv::cdt_create(e.wire, d); if (!r.err) violation("redefine", "%s was redefined as %s", def.c_str(), d.c_str()); r = srv::cdt_get(e.wire, y.n); string g((const char *)r.data.data() + 4); if (r.err || g != def) violation("redefine", "%s is now %s", def.c_str(), g.c_str()); }
}
static void c12() {
    run_forked("layouts", []() { Env e0; bootc(e0); In in = inner(e0); Explorer<Nil> x; x.name = "layouts"; x.depth = 1; x.dedupe = false; static Env e;
        for (auto &L : layouts(in, 3)) { Typ y{"O", L}; x.add(e0.w.def(y), [=](Nil &) { e = e0; uint32_t id = mk(e, y); check_type(e, id, L.size() == 1 ? 3 : 2); }); }
        for (uint32_t t : BASE) for (uint32_t c : {1u, 2u, 8u, 31u}) for (uint32_t t2 : BASE) { Typ y{"P", {{"f", t, c}, {"g", DAX_BOOL, 3}, {"h", t2, 2}}}; x.add(e0.w.def(y), [=](Nil &) { e = e0; uint32_t id = mk(e, y); check_type(e, id, 2); }); }
        Nil m; x.run(m); });
    run_forked("client-made", []() { Env e0; bootc(e0); In in = inner(e0); Explorer<Nil> x; x.name = "client-made"; x.depth = 1; x.dedupe = false; static Env e;
        for (auto &L : layouts(in, 2)) { Typ y{"O", L}; x.add(e0.w.def(y), [=](Nil &) { e = e0; for (int again = 0; again < 2; again++) { tag_type id = 0; int r = 0; cli::call(1, [&]() { int er; dax_cdt *c = api::dax_cdt_new((char *)"O", &er); for (auto &mm : L) { r = api::dax_cdt_member(e.ds, c, (char *)mm.n.c_str(), mm.t, mm.c); if (r) return; } r = api::dax_cdt_create(e.ds, c, &id); }); cli::must(r, "creating the type with the client library"); if (again && !e.w.T.count(id)) violation("redefine", "the same type created again got id 0x%x", id); Typ z = y; z.id = id; e.w.T[id] = z; check_type(e, id, 1); delZ(e); } }); }
        // types seen by the client before / after / in between, many types (growth of both tables)
        x.add("forty types", [=](Nil &) { e = e0; uint32_t prev = in.i1; std::vector<uint32_t> ids; for (int k = 0; k < 40; k++) { Typ y{sfmt("N%d", k), {{"a", DAX_BOOL, (uint32_t)(k % 9 + 1)}, {"p", prev, 1}, {"q", k % 2 ? DAX_INT : DAX_BYTE, (uint32_t)(k % 3 + 1)}}}; uint32_t id = mk(e, y); ids.push_back(id); if (k % 5 != 4) prev = id; else prev = in.i0; if (k % 7 == 3) { int s = 0; cli::call(1, [&]() { s = api::dax_get_typesize(e.ds, id); }); if ((uint64_t)s != e.w.size(id)) violation("size", "N%d", k); } }
            for (auto id : ids) { check_type(e, id, 1); delZ(e); } });
        Nil m; x.run(m); });
    run_forked("name lengths", []() { Env e0; bootc(e0); In in = inner(e0); (void)in; Explorer<Nil> x; x.name = "name lengths"; x.depth = 1; x.dedupe = false; static Env e;
        for (size_t n = 1; n <= 32; n++) for (size_t k : {(size_t)1, (size_t)2, (size_t)31, (size_t)32, n}) for (int who : {0, 1}) x.add(sfmt("type name of %zu, member names of %zu%s", n, k, who ? ", by the client" : ""), [=](Nil &) { e = e0; std::vector<uint32_t> ids;
            for (int v = 0; v < 2; v++) { string a(n, 't'), p(k, 'm'), q(k, 'm'); if (v) a[n - 1] = 'u'; q[k - 1] = 'n'; Typ y{a, {{p, v ? DAX_DINT : DAX_BOOL, 3}, {q, DAX_INT, 2}}}; if (n > 1 && v && k > 1) y.m.push_back({p.substr(0, k - 1), ids[0], 1});
                if (!who) { ids.push_back(mk(e, y)); continue; }
                tag_type id = 0; int r = 0; cli::call(1, [&]() { int er; dax_cdt *c = api::dax_cdt_new((char *)a.c_str(), &er); if (!c) { r = er ? er : -1; return; } for (auto &mm : y.m) { r = api::dax_cdt_member(e.ds, c, (char *)mm.n.c_str(), mm.t, mm.c); if (r) return; } r = api::dax_cdt_create(e.ds, c, &id); }); cli::must(r, "creating a type with long names"); y.id = id; e.w.T[id] = y; ids.push_back(id); }
            if (ids[0] == ids[1]) violation("definition", "two types whose names of %zu characters differ in the last one got the same id", n);
            for (auto id : ids) { check_type(e, id, 2); delZ(e); } });
        Nil m; x.run(m); });
    run_forked("long definitions", []() { Env e0; bootc(e0); In in = inner(e0); (void)in; Explorer<Nil> x; x.name = "long definitions"; x.depth = 1; x.dedupe = false; static Env e;
        for (size_t n = 4040; n <= 4087; n++) x.add(sfmt("definition of %zu characters", n), [=](Nil &) { e = e0; string d = "L"; int k = 0; while (d.size() + 60 < n) d += sfmt(":member_name_%06d,INT,1", k++); size_t rest = n - d.size(); size_t h = rest / 2; for (size_t w : {h, rest - h}) d += ":" + string(1, (char)('a' + k++ % 26)) + string(w - 8, 'q') + ",INT,1"; if (d.size() != n) violation("harness", "%zu instead of %zu", d.size(), n); S->checks++;
            auto r = srv::cdt_create(e.wire, d); if (!r.have) violation("unanswered", "the definition of a type in %zu characters is not answered", n); if (r.err) { auto g = srv::cdt_get(e.wire, "L"); if (!g.err) violation("accepted", "a refused definition of %zu characters exists", n); return; }
            uint32_t id = (uint32_t)srv::i32(r.data); for (int form = 0; form < 2; form++) { auto g = form ? srv::cdt_get(e.wire, id) : srv::cdt_get(e.wire, "L"); if (!g.have) violation("unanswered", "asking for a type of %zu characters is not answered", n); if (g.err) continue; string t((const char *)g.data.data() + 4, strnlen((const char *)g.data.data() + 4, g.data.size() - 4)); if (t != d) violation("definition", "a definition of %zu characters is returned with %zu characters", n, t.size()); }
            auto g = srv::cdt_get(e.wire, "I1"); if (g.err) violation("lost", "an unrelated type is gone"); });
        Nil m; x.run(m); });
    run_forked("malformed", []() { Env e0; bootc(e0); In in = inner(e0); (void)in; Explorer<Nil> x; x.name = "malformed"; x.depth = 1; x.dedupe = false; static Env e;
        std::vector<string> bad = {"", ":", "T", "T:", "T:a", "T:a,", "T:a,INT", "T:a,INT,", "T:a,INT,0", "T:a,INT,-1", "T:a,INT,x", "T:a,INT,1x", "T:a,INT,1,2", "T:a,NOPE,1", "T:a,T,1", "T:1a,INT,1", "T:a b,INT,1", "1T:a,INT,1", "T-1:a,INT,1", "T:a,INT,1:a,INT,1", "T:a,INT,1:b", "T:a,INT,1:b,INT", "T:a,INT,1:b,INT,0", "INT:a,INT,1", "BOOL:a,BOOL,1", "int:a,INT,1", "T:a,INT,99999999999999999999", "T:a,LREAL,2000000000", "T:a.b,INT,1", "T:a[1],INT,1", ",:a,INT,1", "T:,INT,1", "T:a,,1", string(33, 'T') + ":a,INT,1", "T:" + string(33, 'm') + ",INT,1", "T:a,INT,4294967297", "T:a,INT,2147483648", "T:a,I0,1:b,I2,300000000"};
        auto one = [=](const string &d, bool must_refuse) { e = e0; auto r = srv::cdt_create(e.wire, d); S->checks++; if (!r.err) { if (must_refuse) violation("accepted", "the malformed definition '%s' was accepted", d.c_str());
                uint32_t id = (uint32_t)srv::i32(r.data); auto g = srv::cdt_get(e.wire, id); if (g.err) violation("lost", "'%s' accepted but its id is unknown", d.c_str()); string s((const char *)g.data.data() + 4); // parse back
                Typ y; size_t p = s.find(':'); y.n = s.substr(0, p); y.id = id; while (p != string::npos) { size_t q = s.find(':', p + 1); string mm = s.substr(p + 1, q == string::npos ? q : q - p - 1); size_t c1 = mm.find(','), c2 = mm.find(',', c1 + 1); if (c1 == string::npos || c2 == string::npos) violation("definition", "'%s' became '%s'", d.c_str(), s.c_str()); Mem m2{mm.substr(0, c1), 0, (uint32_t)strtoul(mm.c_str() + c2 + 1, 0, 10)}; string tn = mm.substr(c1 + 1, c2 - c1 - 1); for (uint32_t t : BASE) if (e.w.tname(t) == tn) m2.t = t; for (auto &kv : e.w.T) if (kv.second.n == tn) m2.t = kv.first; if (!m2.t || !m2.c) violation("definition", "'%s' became '%s'", d.c_str(), s.c_str()); y.m.push_back(m2); p = q; }
                e.w.T[id] = y; if (e.w.size(id) < 4000) check_type(e, id, 1); }
            else { string n = d.substr(0, d.find(':')); if (n == "T") { auto g = srv::cdt_get(e.wire, n); if (!g.err) violation("accepted", "'%s' was refused but the type exists", d.c_str()); } }
            auto g = srv::cdt_get(e.wire, "I1"); if (g.err) violation("lost", "an unrelated type is gone"); };
        for (auto &d : bad) x.add("bad '" + d + "'", [=](Nil &) { one(d, true); });
        static const char *tok[] = {"T", ":", ",", "a", "INT", "1", "0", "b", "I1", "BOOL", "-"}; int nt = 11, maxl = thorough() ? 8 : 7;
        // every token string "T:" + up to maxl-2 tokens, judged by the grammar  name ":" member (":" member)*
        for (int a = 0; a < nt; a++) for (int c = 0; c < nt; c++) x.add(sfmt("tokens T:%s%s*", tok[a], tok[c]), [=](Nil &) { rt::Snap s; rt::save(s); std::vector<int> seq = {a, c}; std::function<void()> rec = [&]() { string d = "T:"; for (int k : seq) d += tok[k];
                // reference grammar on the text
                bool good = true, sep = false; std::set<string> names; size_t p = 2; std::vector<string> mem; { string rest = d.substr(2); size_t q; while ((q = rest.find(':')) != string::npos) { mem.push_back(rest.substr(0, q)); rest = rest.substr(q + 1); } mem.push_back(rest); } (void)p;
                for (auto &mm : mem) { std::vector<string> f; string r2 = mm; size_t q; while ((q = r2.find(',')) != string::npos) { f.push_back(r2.substr(0, q)); r2 = r2.substr(q + 1); } f.push_back(r2); bool empty = false; for (auto &g : f) if (g.empty()) empty = true; if (empty) { sep = true; std::vector<string> ne; for (auto &g : f) if (!g.empty()) ne.push_back(g); f = ne; if (f.empty()) continue; } if (f.size() != 3) { good = false; break; }
                    auto ident = [](const string &z) { if (!isalpha(z[0]) && z[0] != '_') return false; for (char ch : z) if (!isalnum(ch) && ch != '_') return false; return true; }; string low; for (char ch : f[0]) low += (char)tolower(ch);
                    if (!ident(f[0]) || names.count(low)) { good = false; break; } names.insert(low); if (f[1] != "INT" && f[1] != "BOOL" && f[1] != "I1") { good = false; break; } char *en; long v = strtol(f[2].c_str(), &en, 0); if (*en || v <= 0 || v > 1000000) { good = false; break; } }
                if (names.empty()) good = false;
                S->transitions++; pet(); if (good && !sep) { e = e0; auto r = srv::cdt_create(e.wire, d); if (r.err) violation("refused", "the definition '%s' was refused (%d)", d.c_str(), r.err); } else one(d, !good); rt::restore(s);
                if ((int)seq.size() < maxl - 1) for (int k = 0; k < nt; k++) { seq.push_back(k); rec(); seq.pop_back(); } }; rec(); });
        Nil m; x.run(m); });
}
static Reg r12("C12", c12, "all compound layouts of up to three members over the member alphabet (BOOL runs, arrays, nested types), all pairs of base types; sizes, offsets and definitions as seen by server and client; every redefinition variant; malformed definitions and all token strings up to the bound");
