#include "conc.h"
using namespace sched;
// ---- helpers for application programs (plain data only: everything they keep is part of the explored state)
static int tA, tB, tC; static tag_handle hA, hB, hC, hAe; static tag_type TT; static tag_group_id *G; static dax_id ev1, ev2;
static tag_handle H(const char *n, int cnt = 0) { tag_handle h; memset(&h, 0, sizeof h); int r = 0; cli::call(1, [&]() { r = api::dax_tag_handle(ds, &h, (char *)n, cnt); }); cli::must(r, "dax_tag_handle"); return h; }
static bool okr(int t, int r, const char *what) {
    S->checks++; if (r == 0) return true;
    if (L->crashed || L->gen) return false;                                        // the connection is (being) closed: any error is right
    if (L->fired) return false;                                                      // some calls report a timeout as "not found"
    violation("error", "%s of application thread %d (step %d) fails with error %d%s", what, t + 1, L->pc[t], r, r == ERR_TIMEOUT ? " (timeout)" : "");
}
static void bad(int t, const char *what, long want, long got) { violation("wrong-answer", "%s of application thread %d (step %d) gives %ld instead of %ld", what, t + 1, L->pc[t], got, want); }
// writes and reads back its own tag
static void rw(int t, int idx, int base, int rounds) {
    int have = -1; bool sure = false;                                              // last value known to be in the tag
    for (int k = 0; k < rounds; k++) {
        app(t, k * 2 + 1); int16_t v = (int16_t)(base + k), g = -1; int r = api::dax_write(ds, idx, 0, &v, 2); bool w = okr(t, r, "a write"); if (w || !L->crashed) { have = v; sure = true; } else sure = false;
        app(t, k * 2 + 2); r = api::dax_read(ds, idx, 0, &g, 2); if (okr(t, r, "a read") && sure && !L->gen && g != have) bad(t, "a read of its own tag", have, g);
    }
}
static void lookup(int t, const char *n, int idx) { dax_tag g; memset(&g, 0, sizeof g); int r = api::dax_tag_byname(ds, &g, (char *)n); if (okr(t, r, "a lookup by name")) { if (g.idx != idx) bad(t, "a lookup by name", idx, g.idx); if (strcmp(g.name, n)) bad(t, "a lookup by name", idx, -1); } }
static void lookupi(int t, const char *n, int idx) { dax_tag g; memset(&g, 0, sizeof g); int r = api::dax_tag_byindex(ds, &g, idx); if (okr(t, r, "a lookup by index")) { if (g.idx != idx) bad(t, "a lookup by index", idx, g.idx); if (strcmp(g.name, n)) bad(t, "a lookup by index", idx, -1); } }
static void wnet(int idx, uint32_t off, Bytes d) { srv::B b; b.u32((uint32_t)idx).u32(off).v(d); Bytes f = srv::frame(MSG_TAG_WRITE, b); rt::net_send(wire, f.data(), f.size()); }
static void base_setup() {
    tA = srv::i32(srv::tag_add(wire, "A", DAX_INT, 4).data); tB = srv::i32(srv::tag_add(wire, "B", DAX_INT, 4).data);
    auto r = srv::cdt_create(wire, "TT:a,INT,1:b,BOOL,3:c,REAL,2"); TT = (tag_type)srv::i32(r.data); tC = srv::i32(srv::tag_add(wire, "C", TT, 2).data);
    hA = H("A"); hB = H("B");
}
// the callback of every event
static void cb(dax_state *s, void *u) {
    if (L->nev >= 40) violation("events", "too many callbacks"); Log::Ev &e = L->ev[L->nev++]; e.udata = *(int *)u; memset(e.d, 0, 16); unsigned char d[16]; memset(d, 0, 16); e.n = api::dax_event_get_data(s, d, 16); memcpy(e.d, d, 16);
}
static void fcb(void *u) { int i = (int)((int *)u - L->user); if (i < 0 || i > 15) violation("events", "free callback with foreign user data"); if (L->freed_udata[i]++) violation("events", "the user data of an event is released twice"); }
static void add_ev(tag_handle h, int type, int u, dax_id *id, uint32_t opt = EVENT_OPT_SEND_DATA) { L->user[u] = 100 + u; cli::call(1, [&]() { tag_handle hh = h; int r = api::dax_event_add(ds, &hh, type, nullptr, id, cb, &L->user[u], fcb); cli::must(r, "dax_event_add"); r = api::dax_event_options(ds, *id, opt); cli::must(r, "dax_event_options"); }); }
static int evcount(int u) { int n = 0; for (int i = 0; i < L->nev; i++) if (L->ev[i].udata == 100 + u) n++; return n; }
// after the run: leave the server, release everything
static void finish_all() {
    int r = 0; if (!L->gen) { cli::call(1, [&]() { r = api::dax_disconnect(ds); }); S->checks++; if (r && !L->crashed && !L->fired) violation("error", "dax_disconnect fails with error %d after all calls have returned", r); }
    cli::call(1, [&]() { r = api::dax_free(ds); });
}
static void wait_events(int t, int upto, int timeout) {
    while (L->nev < upto) { dax_id id; id.id = id.index = -1; int before = L->nev; L->waits_event[t] = timeout > 0; int r = api::dax_event_wait(ds, timeout, &id); L->waits_event[t] = 0;
        if (r == ERR_TIMEOUT && timeout) { if (L->fired) continue; violation("events", "waiting for an event times out although one was sent (%d of %d received)", L->nev, upto); }
        if (r) { if (L->crashed || L->gen) return; violation("events", "dax_event_wait fails with error %d", r); }
        if (L->nev != before + 1) violation("events", "one wait for an event ran %d callbacks", L->nev - before); }
}
static void c16() {
    bool th = thorough(); int P = th ? 3 : 2;
    auto fini = []() { finish_all(); };
    { Scn s; s.name = "read-write"; s.setup = base_setup; s.pre = P; s.env = th ? 1 : 0; s.final = fini;
      s.threads = {[]() { rw(0, tA, 10, 2); app(0, 9); lookup(0, "B", tB); }, []() { rw(1, tB, 20, 2); app(1, 9); lookupi(1, "A", tA); }}; run(s); }
    { Scn s; s.name = "faults"; s.setup = base_setup; s.pre = th ? 2 : 1; s.env = th ? 3 : 2; s.late_ok = true; s.final = fini;
      s.threads = {[]() { rw(0, tA, 10, 1); app(0, 9); lookup(0, "C", tC); }, []() { rw(1, tB, 20, 1); }}; run(s); }
    { Scn s; s.name = "faults-one"; s.setup = base_setup; s.pre = th ? 3 : 2; s.env = th ? 4 : 3; s.late_ok = true; s.final = fini;
      s.threads = {[]() { rw(0, tA, 10, 2); app(0, 9); lookup(0, "C", tC); }}; run(s); }
    { Scn s; s.name = "crash"; s.setup = base_setup; s.pre = th ? 2 : 1; s.crash = true; s.final = fini;
      s.threads = {[]() { rw(0, tA, 10, 1); }, []() { rw(1, tB, 20, 1); app(1, 9); lookup(1, "A", tA); }}; run(s); }
    // every request of the API against a thread that reads and writes
    struct Op { const char *n; std::function<void()> f, chk; };
    vector<Op> ops = {
        {"tag_add", []() { tag_handle h; memset(&h, 0, sizeof h); int r = api::dax_tag_add(ds, &h, (char *)"N", DAX_DINT, 3, 0); if (okr(0, r, "adding a tag")) { app(0, 2); lookup(0, "N", h.index); app(0, 3); int r2 = api::dax_tag_del(ds, h.index); if (!okr(0, r2, "deleting a tag")) return; app(0, 4); dax_tag g; r2 = api::dax_tag_byname(ds, &g, (char *)"N"); if (r2 == 0) bad(0, "a lookup of a deleted tag", ERR_NOTFOUND, r2); } }},
        {"typed", []() { tag_handle h; memset(&h, 0, sizeof h); int r = api::dax_tag_handle(ds, &h, (char *)"C", 0); if (okr(0, r, "a handle")) { app(0, 2); unsigned char v[24], g[24]; for (int i = 0; i < 24; i++) v[i] = (unsigned char)(i * 3); memset(g, 0, 24); if (h.size > 24) bad(0, "the size of a handle", 22, h.size); r = api::dax_tag_write(ds, h, v); bool w = okr(0, r, "a typed write"); app(0, 3); r = api::dax_tag_read(ds, h, g); if (okr(0, r, "a typed read") && w) { v[2] &= 7; g[2] &= 7; v[13] &= 7; g[13] &= 7; if (memcmp(v, g, h.size)) bad(0, "a typed read", 0, 1); } } }},
        {"mask", []() { uint8_t d[2] = {0xff, 0x0f}, m[2] = {0xf0, 0x0f}, g[2] = {0, 0}; int r = api::dax_mask(ds, tA, 2, d, m, 2); bool w = okr(0, r, "a masked write"); app(0, 2); r = api::dax_read(ds, tA, 2, g, 2); if (okr(0, r, "a read") && w && (g[0] != 0xf0 || g[1] != 0x0f)) bad(0, "a masked write", 0xff0, g[0] | g[1] << 8); }},
        {"cdt", []() { int er = 0; dax_cdt *c = api::dax_cdt_new((char *)"U", &er); tag_type t = 0; if (!c) bad(0, "dax_cdt_new", 0, er); int r = api::dax_cdt_member(ds, c, (char *)"x", TT, 2); if (!okr(0, r, "adding a member")) { api::dax_cdt_free(c); return; } r = api::dax_cdt_member(ds, c, (char *)"y", DAX_DINT, 1); if (!okr(0, r, "adding a member")) { api::dax_cdt_free(c); return; } app(0, 2); r = api::dax_cdt_create(ds, c, &t); if (okr(0, r, "creating a type")) { app(0, 3); int z = api::dax_get_typesize(ds, t); if (z != 11 * 2 + 4 && !L->fired && !L->crashed) bad(0, "the size of a type", 26, z); app(0, 4); tag_type u = api::dax_string_to_type(ds, (char *)"U"); if (u != t && !L->fired && !L->crashed) bad(0, "the type of a name", (long)t, (long)u); } }},
        {"event", []() { tag_handle h = hA; dax_id id; L->user[5] = 105; int r = api::dax_event_add(ds, &h, EVENT_CHANGE, nullptr, &id, cb, &L->user[5], fcb); if (okr(0, r, "adding an event")) { app(0, 2); r = api::dax_event_options(ds, id, EVENT_OPT_SEND_DATA); okr(0, r, "event options"); app(0, 3); int16_t v[4] = {7, 8, 9, 10}; r = api::dax_write(ds, tA, 0, v, 8); if (okr(0, r, "a write")) { app(0, 4); wait_events(0, 1, 2000); if (!L->crashed && !L->fired && (L->nev != 1 || L->ev[0].udata != 105 || L->ev[0].n != 8 || memcmp(L->ev[0].d, v, 8))) bad(0, "the notification", 1, L->nev); } app(0, 5); r = api::dax_event_del(ds, id); if (okr(0, r, "deleting an event") && L->freed_udata[5] != 1) bad(0, "releases of the user data", 1, L->freed_udata[5]); } }},
        {"override", []() { tag_handle h = hA; h.byte = 4; h.count = 1; h.size = 2; int16_t v = 77, g = 0, m = 0; int r = api::dax_tag_add_override(ds, h, &v); if (okr(0, r, "adding an override")) { app(0, 2); r = api::dax_tag_set_override(ds, h); bool w = okr(0, r, "setting an override"); app(0, 3); r = api::dax_tag_read(ds, h, &g); if (okr(0, r, "a read") && w && g != 77) bad(0, "a read of an overridden tag", 77, g); app(0, 4); r = api::dax_tag_get_override(ds, h, &g, &m); if (okr(0, r, "asking for the override") && w && m != -1) bad(0, "the mask of the override", -1, m); app(0, 5); r = api::dax_tag_clr_override(ds, h); okr(0, r, "clearing an override"); app(0, 6); r = api::dax_tag_del_override(ds, h); okr(0, r, "deleting an override"); } }},
        {"group", []() { tag_handle h[2] = {hA, hB}; int r = 0; h[0].count = 2; h[0].size = 4; h[1].byte = 4; h[1].count = 2; h[1].size = 4; tag_group_id *g = api::dax_group_add(ds, &r, h, 2, 0); if (okr(0, g ? 0 : r, "adding a group")) { app(0, 2); int16_t v[4] = {1, 2, 3, 4}, q[4] = {0, 0, 0, 0}; r = api::dax_group_write(ds, g, v); bool w = okr(0, r, "writing a group"); app(0, 3); r = api::dax_group_read(ds, g, q, 8); if (okr(0, r, "reading a group") && w && memcmp(v, q, 8)) bad(0, "a group read", 1, q[0]); app(0, 4); r = api::dax_group_del(ds, g); okr(0, r, "deleting a group"); } }},
        {"map", []() { tag_handle s = hA, d = hA, a, b; s.count = 1; s.size = 2; d.byte = 6; d.count = 1; d.size = 2; dax_id id; int r = api::dax_map_add(ds, &s, &d, &id); if (okr(0, r, "adding a mapping")) { app(0, 2); r = api::dax_map_get(ds, &a, &b, id); if (okr(0, r, "asking for a mapping") && (a.index != tA || b.byte != 6)) bad(0, "the mapping", tA, a.index); app(0, 3); int16_t v = 5, g = 0; r = api::dax_write(ds, tA, 0, &v, 2); bool w = okr(0, r, "a write"); app(0, 4); r = api::dax_read(ds, tA, 6, &g, 2); if (okr(0, r, "a read") && w && g != 5) bad(0, "a read of a mapped tag", 5, g); app(0, 5); r = api::dax_map_del(ds, id); okr(0, r, "deleting a mapping"); } }},
        {"atomic", []() { tag_handle h = hA; h.count = 1; h.size = 2; int16_t one = 1, g = 0; int r = api::dax_atomic_op(ds, h, &one, ATOMIC_OP_INC); bool w = okr(0, r, "an atomic operation"); app(0, 2); r = api::dax_read(ds, tA, 0, &g, 2); if (okr(0, r, "a read") && w && g != 1) bad(0, "an atomic operation", 1, g); }},
    };
    for (auto &o : ops) { Scn s; s.name = string("call-") + o.n; s.setup = base_setup; s.pre = P; s.final = fini; auto f = o.f; s.threads = {[f]() { app(0, 1); f(); }, []() { rw(1, tB, 20, 1); }}; if (!strcmp(o.n, "group")) s.threads[1] = []() { lookup(1, "C", tC); }; run(s); }
    for (auto &o : ops) { Scn s; s.name = string("call-fault-") + o.n; s.setup = base_setup; s.pre = th ? 2 : 1; s.env = th ? 2 : 1; s.late_ok = true; s.final = fini; auto f = o.f; s.threads = {[f]() { app(0, 1); f(); }}; run(s); }
    for (auto &o : ops) { Scn s; s.name = string("call-crash-") + o.n; s.setup = base_setup; s.pre = th ? 2 : 1; s.crash = true; s.final = fini; auto f = o.f; s.threads = {[f]() { app(0, 1); f(); }}; run(s); }
    // ---- a transfer of several messages never tears an element apart
    static int tE; static tag_handle hE;
    auto bigsetup = []() { base_setup(); auto r = srv::cdt_create(wire, "E9:b,BYTE,9"); tE = srv::i32(srv::tag_add(wire, "E", (tag_type)srv::i32(r.data), 460).data); int rr = 0; cli::call(1, [&]() { rr = api::dax_tag_handle(ds, &hE, (char *)"E", 0); api::dax_get_typesize(ds, hE.type); }); if (rr || hE.size != 4140) violation("error", "the handle of a large array: error %d size %u", rr, (unsigned)hE.size); };
    auto whole = [](const unsigned char *g, int lo, int hi, const char *what) { for (int i = lo; i < hi; i++) for (int k = 1; k < 9; k++) if (g[i * 9 + k] != g[i * 9]) violation("torn", "%s shows element %d half changed (%02x and %02x)", what, i, g[i * 9], g[i * 9 + k]); };
    { Scn s; s.name = "large-read"; s.setup = bigsetup; s.pre = 1; s.final = fini; for (int e : {226, 453, 454}) { s.foreign.push_back([e]() { srv::twrite(wire, tE, e * 9, Bytes(9, 0x77)); }); s.foreign_names.push_back(sfmt("writes E[%d]", e)); }
      s.threads = {[=]() { app(0, 1); static unsigned char g[4140]; memset(g, 0xee, sizeof g); int r = api::dax_tag_read(ds, hE, g); if (okr(0, r, "a large read")) whole(g, 0, 460, "a large read"); }}; run(s); }
    for (int mask : {0, 1}) { Scn s; s.name = mask ? "large-mask" : "large-write"; s.setup = bigsetup; s.pre = 1; s.final = fini; for (int e : {225, 450}) { s.foreign.push_back([=]() { srv::Reply q = srv::tread(wire, tE, e * 9, 90); if (q.err) violation("error", "another module's read fails"); whole(&q.data[0], 0, 10, mask ? "a large masked write" : "a large write"); }); s.foreign_names.push_back(sfmt("reads E[%d..]", e)); }
      s.threads = {[=]() { app(0, 1); static unsigned char v[4140], m[4140]; memset(v, 0x55, sizeof v); memset(m, 0xff, sizeof m); int r = mask ? api::dax_tag_mask(ds, hE, v, m) : api::dax_tag_write(ds, hE, v); okr(0, r, "a large write"); }}; run(s); }
    // ---- notifications
    struct Exp { int u; int n; unsigned char d[8]; };
    static vector<Exp> expd;
    auto evsetup = []() { base_setup(); add_ev(hA, EVENT_CHANGE, 0, &ev1); tag_handle b = hB; b.count = 1; b.size = 2; add_ev(b, EVENT_WRITE, 1, &ev2); expd.clear(); expd.push_back({0, 8, {1, 0, 0, 0, 0, 0, 0, 0}}); expd.push_back({1, 2, {9, 0}}); expd.push_back({0, 8, {1, 0, 3, 0, 0, 0, 0, 0}}); };
    auto evcheck = []() { for (int i = 0; i < L->nev; i++) { if (i >= (int)expd.size()) violation("events", "%d notifications were dispatched, only %zu were sent", L->nev, expd.size()); Log::Ev &e = L->ev[i]; Exp &x = expd[i]; if (e.udata != 100 + x.u) violation("events", "notification %d is dispatched with the user data of event %d instead of %d", i + 1, e.udata - 100, x.u); if (e.n != x.n || memcmp(e.d, x.d, x.n)) violation("events", "notification %d carries %d bytes (%d %d ..) instead of %d bytes (%d %d ..)", i + 1, e.n, e.d[0], e.d[1], x.n, x.d[0], x.d[1]); S->checks++; } if (!L->crashed && !L->gen && L->nev != (int)expd.size()) violation("events", "%d of %zu notifications were dispatched", L->nev, expd.size()); };
    vector<std::function<void()>> F = {[]() { wnet(tA, 0, {1, 0}); }, []() { wnet(tB, 0, {9, 0}); }, []() { wnet(tA, 2, {3, 0}); }}; vector<string> FN = {"writes A[0]", "writes B[0]", "writes A[1]"};
    auto evfinal = [=]() { evcheck(); finish_all(); };
    { Scn s; s.name = "events-wait"; s.setup = evsetup; s.pre = P; s.foreign = F; s.foreign_names = FN; s.final = evfinal; s.threads = {[]() { app(0, 1); wait_events(0, 3, 0); }, []() { rw(1, tC, 20, 1); }}; run(s); }
    { Scn s; s.name = "events-timed"; s.setup = evsetup; s.pre = 1; s.env = th ? 2 : 1; s.late_ok = true; s.foreign = F; s.foreign_names = FN; s.final = evfinal; s.threads = {[]() { app(0, 1); wait_events(0, 3, 2000); }, []() { app(1, 1); lookup(1, "C", tC); }}; run(s); }
    { Scn s; s.name = "events-poll"; s.setup = evsetup; s.pre = th ? 2 : 1; s.foreign = F; s.foreign_names = FN; s.final = evfinal;
      s.threads = {[]() { for (int k = 0; k < 4; k++) { app(0, k + 1); dax_id id; int b = L->nev; int r = api::dax_event_poll(ds, &id); if (r && r != ERR_NOTFOUND) violation("events", "dax_event_poll fails with error %d", r); if (L->nev != b + (r == 0)) violation("events", "dax_event_poll returned %d and ran %d callbacks", r, L->nev - b); if (!r && L->ev[b].udata == 100 && (id.index != ev1.index || id.id != ev1.id)) violation("events", "dax_event_poll gives a foreign event id"); if (k == 1) lookup(0, "A", tA); } app(0, 5); wait_events(0, 3, 0); }, []() { app(1, 1); rw(1, tC, 20, 1); }}; run(s); }
    // more notifications than the library keeps: what is delivered is the newest ones, at least eight, in order, once each
    { Scn s; s.name = "events-full"; s.setup = []() { base_setup(); tag_handle b = hB; b.count = 1; b.size = 2; add_ev(b, EVENT_WRITE, 1, &ev2); }; s.pre = 1;
      s.final = []() { if (L->nev < 8 || L->nev > 19) violation("events", "%d of 19 notifications were dispatched (8 fit)", L->nev); for (int i = 0; i < L->nev; i++) { Log::Ev &e = L->ev[i]; int want = i < L->user[20] ? i + 1 : 19 - (L->nev - L->user[20]) + (i - L->user[20]) + 1; if (e.udata != 101 || e.n != 2 || e.d[0] != want) violation("events", "delivery %d is notification %d (%d bytes) instead of %d", i + 1, e.d[0], e.n, want); S->checks++; } finish_all(); };
      s.threads = {[]() { auto wr = [](int k) { int16_t v = (int16_t)k; int r = api::dax_write(ds, tB, 0, &v, 2); okr(0, r, "a write"); }; auto drain = [](int most) { for (int k = 0; k < most; k++) { dax_id id; int b = L->nev; int r = api::dax_event_poll(ds, &id); if (r == ERR_NOTFOUND && L->nev == b) break; if (r || L->nev != b + 1) violation("events", "dax_event_poll gives %d and runs %d callbacks", r, L->nev - b); } };
          app(0, 1); for (int k = 1; k <= 7; k++) wr(k); lookup(0, "A", tA); app(0, 2); drain(2); L->user[20] = L->nev; if (L->nev != 2) violation("events", "two of seven notifications are not there"); app(0, 3); for (int k = 8; k <= 19; k++) wr(k); lookup(0, "A", tA); app(0, 4); drain(40); }}; run(s); }
    { Scn s; s.name = "events-crash"; s.setup = [=]() { evsetup(); expd.resize(2); }; s.pre = th ? 2 : 1; s.crash = true; s.foreign = {F[0], F[1]}; s.foreign_names = {FN[0], FN[1]}; s.final = evfinal; s.threads = {[]() { app(0, 1); wait_events(0, 2, 0); }, []() { rw(1, tC, 20, 1); }}; run(s); }
    { Scn s; s.name = "events-add"; s.setup = []() { base_setup(); add_ev(hA, EVENT_CHANGE, 0, &ev1); }; s.pre = P; s.foreign = {F[0], F[2]}; s.foreign_names = {FN[0], FN[2]};
      s.final = []() { if (evcount(0) != 2 || evcount(3) != 1 || L->nev != 3) violation("events", "%d notifications of the first and %d of the second event were dispatched instead of 2 and 1", evcount(0), evcount(3)); int a = 0; for (int i = 0; i < 3; i++) if (L->ev[i].udata == 100) { unsigned char w[2][8] = {{1, 0}, {1, 0, 3, 0}}; if (L->ev[i].n != 8 || memcmp(L->ev[i].d, w[a], 8)) violation("events", "notification %d of the first event has wrong data", a + 1); a++; } else if (L->ev[i].n != 2 || L->ev[i].d[0] != 55) violation("events", "the notification of the second event has wrong data (%d)", L->ev[i].d[0]); finish_all(); };
      s.threads = {[]() { app(0, 1); wait_events(0, 3, 0); }, []() { app(1, 1); tag_handle h = hB; h.count = 1; h.size = 2; dax_id id; L->user[3] = 103; int r = api::dax_event_add(ds, &h, EVENT_CHANGE, nullptr, &id, cb, &L->user[3], fcb); if (!okr(1, r, "adding an event")) return; app(1, 2); r = api::dax_event_options(ds, id, EVENT_OPT_SEND_DATA); okr(1, r, "event options"); app(1, 3); int16_t v = 55; r = api::dax_write(ds, tB, 0, &v, 2); okr(1, r, "a write"); }}; run(s); }
    { Scn s; s.name = "events-del"; s.setup = evsetup; s.pre = P; s.foreign = F; s.foreign_names = FN;
      s.final = []() { int last = 0; for (int i = 0; i < L->nev; i++) if (L->ev[i].udata == 101) { last++; if (L->ev[i].d[0] != 9) violation("events", "the notification of the remaining event has wrong data"); } if (last != 1) violation("events", "%d notifications of the remaining event were dispatched instead of one", last); if (evcount(0) > 2) violation("events", "%d notifications of the deleted event", evcount(0)); if (L->freed_udata[0] != 1) violation("events", "the user data of the deleted event was released %d times", L->freed_udata[0]); finish_all(); };
      s.threads = {[]() { app(0, 1); while (evcount(1) < 1) { dax_id id; int r = api::dax_event_wait(ds, 0, &id); if (r && !L->user[20]) violation("events", "dax_event_wait fails with error %d", r); } }, []() { app(1, 1); L->user[20] = 1; int r = api::dax_event_del(ds, ev1); okr(1, r, "deleting an event"); }}; run(s); }
    // ---- life of a connection
    static auto dcb = [](int) { L->disconnects++; };
    auto withcb = []() { base_setup(); api::dax_set_disconnect_callback(ds, dcb); };
    { Scn s; s.name = "lost-callback"; s.setup = withcb; s.pre = th ? 3 : 2; s.crash = true; s.threads = {[]() { rw(0, tA, 10, 1); }}; s.final = []() { if (L->disconnects != (L->crashed ? 1 : 0)) violation("disconnect", "the disconnect callback ran %d times, the server %s", L->disconnects, L->crashed ? "died" : "is alive"); int n = L->disconnects; finish_all(); if (L->disconnects != n) violation("disconnect", "the disconnect callback ran for the module's own disconnect"); }; run(s); }
    { Scn s; s.name = "disconnect"; s.setup = withcb; s.pre = P; s.final = []() { if (L->disconnects) violation("disconnect", "the disconnect callback ran for the module's own disconnect"); finish_all(); };
      s.threads = {[]() { rw(0, tA, 10, 1); app(0, 9); lookup(0, "B", tB); }, []() { app(1, 1); int r; L->gen = 1; r = api::dax_disconnect(ds); if (r) violation("error", "dax_disconnect fails with error %d", r); }}; run(s); }
    { Scn s; s.name = "disconnect-waiting"; s.setup = evsetup; s.pre = P; s.foreign = {F[0]}; s.foreign_names = {FN[0]}; s.final = [=]() { evcheck(); finish_all(); };
      s.threads = {[]() { app(0, 1); wait_events(0, 3, 0); }, []() { app(1, 1); L->gen = 1; int r = api::dax_disconnect(ds); if (r) violation("error", "dax_disconnect fails with error %d", r); }}; run(s); }
    { Scn s; s.name = "disconnect-crash"; s.setup = withcb; s.pre = th ? 2 : 1; s.crash = true; s.final = []() { finish_all(); }; s.threads = {[]() { rw(0, tA, 10, 1); }, []() { app(1, 1); L->gen = 1; api::dax_disconnect(ds); }}; run(s); }
    { Scn s; s.name = "disconnect-fault"; s.setup = withcb; s.pre = th ? 2 : 1; s.env = th ? 2 : 1; s.late_ok = true; s.final = []() { finish_all(); }; s.threads = {[]() { app(0, 1); lookup(0, "B", tB); app(0, 2); L->gen = 1; api::dax_disconnect(ds); }}; run(s); }
    { Scn s; s.name = "reconnect"; s.setup = base_setup; s.pre = P; s.env = 0; s.final = []() { L->gen = 0; finish_all(); };
      s.threads = {[]() { app(0, 1); L->gen = 1; int r = api::dax_disconnect(ds); if (r) violation("error", "dax_disconnect fails with error %d", r); app(0, 2); r = api::dax_connect(ds); if (r) violation("error", "connecting again fails with error %d", r); app(0, 3); int16_t v = 4711, g = 0; r = api::dax_write(ds, tA, 0, &v, 2); if (r) violation("error", "a write after connecting again fails with error %d", r); app(0, 4); r = api::dax_read(ds, tA, 0, &g, 2); if (r || g != 4711) violation("wrong-answer", "a read after connecting again gives %d (error %d)", g, r); app(0, 5); lookup(0, "A", tA); }, []() { app(1, 1); dax_tag t; memset(&t, 0, sizeof t); int r = api::dax_tag_byname(ds, &t, (char *)"B"); if (!r && t.idx != tB) bad(1, "a lookup", tB, t.idx); app(1, 2); int16_t v = 33, g = 0; r = api::dax_write(ds, tB, 0, &v, 2); app(1, 3); if (!r) { r = api::dax_read(ds, tB, 0, &g, 2); if (!r && g != 33) bad(1, "a read", 33, g); } }}; run(s); }
    { Scn s; s.name = "connect-faults"; s.setup = []() { base_setup(); int r = 0; cli::call(1, [&]() { r = api::dax_disconnect(ds); }); }; s.pre = 1; s.env = th ? 3 : 2; s.crash = true; s.late_ok = true; s.final = []() { finish_all(); };
      s.threads = {[]() { app(0, 1); L->gen = 1; int r = api::dax_connect(ds); if (r) { if (!L->crashed && !L->fired) { if (r != ERR_TIMEOUT) violation("error", "connecting fails with error %d", r); } return; } L->gen = 0; app(0, 2); lookup(0, "A", tA); }}; run(s); }
    { Scn s; s.name = "types"; s.setup = []() { base_setup(); auto r = srv::cdt_create(wire, "T2:p,TT,2:q,BYTE,1"); tag_type t2 = (tag_type)srv::i32(r.data); L->user[30] = srv::i32(srv::tag_add(wire, "D", t2, 1).data); Bytes d(23); for (int i = 0; i < 23; i++) d[i] = (uint8_t)i; srv::twrite(wire, L->user[30], 0, d); }; s.pre = th ? 3 : 2; s.final = fini;
      s.threads = {[]() { app(0, 1); tag_handle h; int r = api::dax_tag_handle(ds, &h, (char *)"D.p[1].c", 0); if (okr(0, r, "a handle") && (h.byte != 14 || h.size != 8)) bad(0, "the place of D.p[1].c", 14, h.byte); app(0, 2); r = api::dax_get_typesize(ds, TT); if (r != 11) bad(0, "the size of a type", 11, r); }, []() { app(1, 1); unsigned char g[24]; tag_handle h; int r = api::dax_tag_handle(ds, &h, (char *)"D", 0); if (!okr(1, r, "a handle")) return; if (h.size != 23) bad(1, "the size of D", 23, h.size); app(1, 2); r = api::dax_tag_read(ds, h, g); if (okr(1, r, "a typed read")) for (int i = 3; i < 11; i++) if (g[i] != i) bad(1, "a typed read", i, g[i]); }}; run(s); }
}
static Reg r16("C16", c16, "every schedule of the application threads, the connection thread, the server and other modules up to the preemption bound, with every placement of short reads, late data, early timeouts, spurious wakeups and the death of the server up to the fault bound");
