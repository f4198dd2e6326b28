// C24: lookups through the client's tag cache always give the server's definition
#include "cscn.h"
static dax_state *ds; static int wire;
struct CM { std::map<string, int> own; std::set<string> foreign; bool conn = true; uint64_t hash() const { uint64_t h = conn; for (auto &p : own) for (char c : p.first) h = h * 131 + (uint64_t)c + (uint64_t)p.second * 7919; for (auto &p : foreign) for (char c : p) h = h * 137 + (uint64_t)c; return h; } };
struct Def { int err = 0; int idx = -1; uint32_t type = 0, count = 0; uint16_t attr = 0; string name; };
static Def srvdef(const srv::Reply &r) { Def d; d.err = r.err; if (!r.err) { d.idx = srv::i32(r.data); memcpy(&d.type, &r.data[4], 4); memcpy(&d.count, &r.data[8], 4); memcpy(&d.attr, &r.data[12], 2); d.name = string((const char *)&r.data[14], strnlen((const char *)&r.data[14], r.data.size() - 14)); } return d; }
static string show(const Def &d) { return d.err ? sfmt("error %d", d.err) : sfmt("%s idx %d type 0x%x[%u] attr 0x%x", d.name.c_str(), d.idx, d.type, d.count, d.attr); }
static Def clidef(int r, const dax_tag &t) { Def d; d.err = r; if (!r) { d.idx = t.idx; d.type = t.type; d.count = t.count; d.attr = (uint16_t)t.attr; d.name = string(t.name, strnlen(t.name, sizeof t.name)); } return d; }
static void same(const char *what, const Def &c, const Def &s, bool foreign) { S->checks++;
    if (foreign) { if (!c.err && !s.err && c.name != s.name) violation("foreign", "%s gave %s", what, show(c).c_str()); return; }
    if ((c.err != 0) != (s.err != 0) || (!c.err && (c.idx != s.idx || c.type != s.type || c.count != s.count || c.attr != s.attr || c.name != s.name))) violation("stale", "%s gives %s, the server says %s", what, show(c).c_str(), show(s).c_str()); }
static void byname(CM &m, const string &n) { dax_tag t; memset(&t, 0, sizeof t); int r = 0; cli::call(1, [&]() { r = api::dax_tag_byname(ds, &t, (char *)n.c_str()); }); Def c = clidef(r, t); same(sfmt("lookup of '%s'", n.c_str()).c_str(), c, srvdef(srv::tag_get(wire, n)), m.foreign.count(n) > 0); if (!c.err && c.name != n) violation("foreign", "lookup of '%s' gave the tag '%s'", n.c_str(), c.name.c_str()); }
static void byidx(CM &m, const string &n, int i) { dax_tag t; memset(&t, 0, sizeof t); int r = 0; cli::call(1, [&]() { r = api::dax_tag_byindex(ds, &t, i); }); Def c = clidef(r, t); same(sfmt("lookup of index %d", i).c_str(), c, srvdef(srv::tag_get(wire, i)), m.foreign.count(n) > 0); if (!c.err && c.idx != i) violation("foreign", "lookup of index %d gave the tag %d", i, c.idx); }
static void handle(CM &m, const string &n) { tag_handle h; int r = 0; cli::call(1, [&]() { r = api::dax_tag_handle(ds, &h, (char *)n.c_str(), 0); }); Def s = srvdef(srv::tag_get(wire, n)); S->checks++; if (m.foreign.count(n)) return; if ((r != 0) != (s.err != 0) || (!r && (h.index != s.idx || h.count != s.count || h.type != s.type))) violation("stale", "the handle of '%s' is error %d idx %d type 0x%x[%u], the server says %s", n.c_str(), r, h.index, h.type, h.count, show(s).c_str()); }
static void add(CM &m, const string &n, uint32_t ty, int cnt, uint32_t at = 0) { tag_handle h; memset(&h, 0, sizeof h); int r = 0; cli::call(1, [&]() { r = api::dax_tag_add(ds, &h, (char *)n.c_str(), ty, cnt, at); }); Def s = srvdef(srv::tag_get(wire, n)); if (!r) { if (s.err || s.idx != h.index) violation("foreign", "adding '%s' gave index %d, the server says %s", n.c_str(), h.index, show(s).c_str()); m.own[n] = h.index; m.foreign.erase(n); } }
static void c24() {
    for (const char *cs : {"0", "1", "2", "3", "8"}) for (int form = 0; form < 4; form++) { if (form == 3 && *cs != '3') continue; string nm = sfmt("cache-%s-%s", cs, form == 3 ? "far" : form == 2 ? "order" : form ? "churn" : "mix"); run_forked(nm.c_str(), [=]() {
        srv::load(); cli::load(); srv::boot(); wire = srv::connect(); srv::reg(wire, "wire"); ds = cli::open(1, "cl", {string("--cachesize=") + cs}); CM m; Explorer<CM> x; x.name = nm; x.depth = form == 3 ? (thorough() ? 5 : 4) : form == 2 ? (thorough() ? 8 : 6) : form ? (thorough() ? 7 : 5) : (thorough() ? 6 : 4);
        string lg(31, 'n'); std::vector<string> N = form >= 2 ? std::vector<string>{"A", "AB", lg + "a", lg + "b"} : form ? std::vector<string>{"A", "B", "C", "D"} : std::vector<string>{"A", "Bx", "C"};
        if (form) for (auto &n : N) { if (form == 3 && &n == &N[3]) for (int k = 0; k < 255; k++) srv::tag_add(wire, sfmt("fill%d", k), DAX_BYTE, 1); add(m, n, DAX_INT, 2); } if (form >= 2) for (auto &n : N) byname(m, n);
        if (form >= 2) { for (auto &n : N) { if (form == 3) x.add("index of " + n, [=](CM &s) { byidx(s, n, s.own[n]); }); x.add("name " + n, [=](CM &s) { byname(s, n); }); x.add("del " + n, [=](CM &s) { int i = s.own[n]; cli::call(1, [&]() { api::dax_tag_del(ds, i); }); }); x.add("add " + n, [=](CM &s) { add(s, n, DAX_INT, 2); }); } x.run(m); return; }
        for (auto &n : N) { x.add("name " + n, [=](CM &s) { byname(s, n); }, [](const CM &s) { return s.conn; }); x.add("index of " + n, [=](CM &s) { byidx(s, n, s.own[n]); }, [=](const CM &s) { return s.conn && s.own.count(n); });
            x.add("del " + n, [=](CM &s) { int i = s.own[n]; cli::call(1, [&]() { api::dax_tag_del(ds, i); }); }, [=](const CM &s) { return s.conn && s.own.count(n) && !s.foreign.count(n); }); x.add("add " + n, [=](CM &s) { add(s, n, DAX_INT, 2); }, [](const CM &s) { return s.conn; }); }
        if (!form) for (auto &n : {N[0], N[1]}) { x.add("grow " + n, [=](CM &s) { add(s, n, DAX_INT, 5); }, [](const CM &s) { return s.conn; }); x.add("add smaller " + n, [=](CM &s) { add(s, n, DAX_INT, 1, TAG_ATTR_READONLY); }, [](const CM &s) { return s.conn; }); x.add("add other type " + n, [=](CM &s) { add(s, n, DAX_REAL, 2); }, [](const CM &s) { return s.conn; }); x.add("handle " + n, [=](CM &s) { handle(s, n); }, [](const CM &s) { return s.conn; }); }
        x.add("read " + N[0], [=](CM &s) { int i = s.own[N[0]]; uint16_t v = 0; int r = 0; cli::call(1, [&]() { CBuf q(2); r = api::dax_read(ds, i, 0, q.p, 2); }); (void)v; if (r == ERR_DELETED) s.foreign.erase(N[0]); }, [=](const CM &s) { return s.conn && s.own.count(N[0]); });
        x.add("another module deletes " + N[0], [=](CM &s) { srv::tag_del(wire, s.own[N[0]]); s.foreign.insert(N[0]); }, [=](const CM &s) { return s.own.count(N[0]) && !s.foreign.count(N[0]); });
        x.add("reconnect", [=](CM &s) { int r = 0; cli::call(1, [&]() { api::dax_disconnect(ds); r = api::dax_connect(ds); }); cli::must(r, "reconnecting"); s.foreign.clear(); });
        x.run(m); }); }
}
static Reg r24("C24", c24, "all sequences of tag additions (new, larger, smaller, other type), deletions, lookups by name and index, handle lookups, failing reads, deletions by another module and reconnects up to the depth bound, for cache sizes 0, 1, 2, 3 and 8 (longer sequences of lookups, deletions and additions alone); every lookup is compared with what the server answers at that moment");
