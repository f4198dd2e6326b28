// C27: what the scripts of daxlua see and what they leave behind.
#include "dl.h"
using namespace dl;
static Bytes i4(int v) { return by({v, v >> 8, v >> 16, v >> 24}); }
static Bytes f4(float v) { Bytes b(4); memcpy(b.data(), &v, 4); return b; }
static string num(double v) { string s = sfmt("%.14g", v); if (s.find_first_of(".en") == string::npos) s += ".0"; return s; }
static const char *SRC =
    "local function y(i) if type(Y) == 'table' then return Y[i] end end\n"
    "mark(1, X, y(1), y(2), y(3), Z, W, E, L, S1, S2, S3, S4, K, _firstrun, get_executions(), get_name(), get_script_id(get_name()), get_script_name(get_script_id('b')))\n"
    "K = (K or 0) + 1\nlocal d = _trigger_data\n"
    "if d == 1 then if type(Y) ~= 'table' then Y = {0, 0, 0} end Y[2] = X + 1 Z = Z * 2 + 0.5 W = not W S1 = 'changed' S2 = S2 + 1 S4 = 5\n"
    "elseif d == 2 then Y = {7, 8, 9} B = {1, 2, 3} S3 = nil E = E + 10\n"
    "elseif d == 3 then Y = {5} B = {9, 8}\n"
    "elseif d == 4 then Y = 'str' Z = 77 E = -1\n"
    "elseif d == 5 then X = 1000 _firstrun = true\n"
    "elseif d == 6 then Z = nil W = nil E = 3\n"
    "end\n";
struct GM { int x = 0; int16_t y[3] = {0, 0, 0}; float z = 0; bool w = false; int8_t e[4] = {0, 0, 0, 0}; int bb[3] = {0, 0, 0}, bs = 0; bool has = false; int l = 0; bool ytab = true, yv[3] = {true, true, true}; int16_t Y[3] = {0, 0, 0}; bool init = false; int runs = 0, k = 0; bool zu = false, wu = false;
    uint64_t hash() const { uint64_t h = (uint64_t)x; for (int i = 0; i < 3; i++) h = h * 131 + (uint64_t)y[i] * 7 + (uint64_t)Y[i] * 3 + yv[i]; uint32_t b; memcpy(&b, &z, 4); h = h * 31 + b; h = h * 31 + (uint64_t)(w + 2 * has + 4 * ytab + 8 * zu + 16 * wu); h = h * 31 + (uint64_t)l; for (int8_t c : e) h = h * 31 + (uint64_t)c; for (int c : bb) h = h * 31 + (uint64_t)c; return h * 31 + (uint64_t)runs * 4 + (uint64_t)bs; } };
typedef Explorer<GM> GX;
static int tb, tx, ty, tz, tw, te, tl, tt;
static string expected(GM &m) {
    auto yy = [&](int i) { return m.ytab && m.yv[i] ? sfmt("%d", m.Y[i]) : string("nil"); };
    return sfmt("%d %s %s %s %s %s %d %s abc 12 true 1.25 %s %s %d b 1 b", m.x, yy(0).c_str(), yy(1).c_str(), yy(2).c_str(), num(m.z).c_str(), m.w ? "true" : "false", m.e[2], m.has ? sfmt("%d", m.l).c_str() : "nil", m.k ? sfmt("%d", m.k).c_str() : "nil", m.runs ? "false" : "true", m.runs);
}
static void gsweep(GM &m) {
    Bytes x = get(tx, 0, 4), y = get(ty, 0, 6), z = get(tz, 0, 4), w = get(tw, 0, 1), e = get(te, 0, 4); Bytes we(4); memcpy(we.data(), m.e, 4); Bytes wy(6); memcpy(wy.data(), m.y, 6);
    if (x != i4(m.x)) violation("tag", "the tag of the READ variable holds %s, expected %d", srv::hex(x).c_str(), m.x);
    if (y != wy) violation("tag", "the tag of the WRITE variable holds %s, expected %s", srv::hex(y).c_str(), srv::hex(wy).c_str());
    if (m.zu) { memcpy(&m.z, z.data(), 4); m.zu = false; } else if (z != f4(m.z)) violation("tag", "the REAL tag holds %s, expected %s", srv::hex(z).c_str(), srv::hex(f4(m.z)).c_str());
    if (m.wu) { m.w = w[0] & 1; m.wu = false; } else if ((w[0] & 1) != m.w) violation("tag", "the BOOL tag holds %d, expected %d", w[0] & 1, m.w);
    if (get(tb, 0, 3) != by({m.bb[0], m.bb[1], m.bb[2]})) violation("tag", "the BYTE array holds %s, expected %02x%02x%02x", srv::hex(get(tb, 0, 3)).c_str(), m.bb[0], m.bb[1], m.bb[2]);
    if (e != we) violation("tag", "the tag of the element variable holds %s, expected %s", srv::hex(e).c_str(), srv::hex(we).c_str());
    if (m.has && get(tl, 0, 4) != i4(m.l)) violation("tag", "the tag of the second READ variable has changed"); S->checks++;
}
static void globals(int depth) {
    string nm = "globals"; if (const char *o = getenv("MC_ONLY")) if (*o && nm.find(o) != 0) return;
    run_forked(nm.c_str(), [=]() {
        load(); tx = tag("tx", DAX_DINT, 1); ty = tag("ty", DAX_INT, 3); tz = tag("tz", DAX_REAL, 1); tw = tag("tw", DAX_BOOL, 1); te = tag("te", DAX_SINT, 4); tb = tag("tb", DAX_BYTE, 3); tt = tag("tt", DAX_DINT, 1);
        string conf = "event_thread_count = \"2\"\nevent_queue_size = \"4\"\nadd_script({name=\"a\",filename=\"%D/a.lua\",trigger={tag=\"tt\",type=\"WRITE\",count=0},auto_run=false})\nadd_script({name=\"b\",filename=\"%D/b.lua\",fail_on_error=false,trigger={tag=\"tt\",type=\"WRITE\",count=0},auto_run=false})\n"
            "add_global_tag(\"b\",\"Z\",\"tz\",READ+WRITE)\nadd_global_tag(\"b\",\"X\",\"tx\",READ)\nadd_global_tag(\"b\",\"Y\",\"ty\",WRITE)\nadd_global_tag(\"b\",\"B\",\"tb\",WRITE)\nadd_global_tag(\"b\",\"W\",\"tw\",READ+WRITE)\nadd_global_tag(\"b\",\"E\",\"te[2]\",READ+WRITE)\nadd_global_tag(\"b\",\"L\",\"tl\",READ)\n"
            "add_global_static(\"b\",\"S1\",\"abc\")\nadd_global_static(\"b\",\"S2\",12)\nadd_global_static(\"b\",\"S3\",true)\nadd_global_static(\"b\",\"S4\",1.25)\nadd_global_static(\"a\",\"S1\",\"other\")\nadd_global_tag(\"a\",\"X\",\"tx\",READ)\n";
        start(conf, {{"a", "mark(2, X, S1, S2, Z, K, get_script_id(get_name()))\nS2 = 1\nZ = 4\nX = 5\n"}, {"b", SRC}});
        GM m; GX x; x.name = nm; x.depth = depth; x.sweep = gsweep;
        for (int d = 1; d <= 6; d++) x.add(sfmt("run %d", d), [d](GM &m) {
            if (!m.init) { m.init = true; } string want = expected(m), a2 = sfmt("%d other %s %s nil 0", m.x, m.runs ? "1" : "nil", m.runs ? "4" : "nil"); put(tt, i4(d)); auto t = texts(1), t2 = texts(2); m.k++; m.runs++;
            if ((int)t.size() != m.runs || (int)t2.size() != m.runs) violation("runs", "%zu and %zu runs after %d triggers", t.size(), t2.size(), m.runs); if (t.back() != want) violation("values", "the script sees \"%s\", expected \"%s\"", t.back().c_str(), want.c_str()); if (t2.back() != a2) violation("values", "the other script sees \"%s\", expected \"%s\"", t2.back().c_str(), a2.c_str());
            outcome(std::hash<string>()(want));
            if (d == 1) { if (!m.ytab) { m.ytab = true; for (int i = 0; i < 3; i++) m.yv[i] = true, m.Y[i] = 0; } m.Y[1] = (int16_t)(m.x + 1); m.yv[1] = true; m.z = (float)((double)m.z * 2 + 0.5); m.w = !m.w; }
            if (d == 2) { m.ytab = true; for (int i = 0; i < 3; i++) m.yv[i] = true, m.Y[i] = (int16_t)(7 + i); m.e[2] = (int8_t)(m.e[2] + 10); }
            if (d == 3) { m.ytab = true; m.yv[0] = true; m.yv[1] = m.yv[2] = false; m.Y[0] = 5; }
            if (d == 4) { m.ytab = false; m.z = 77; m.e[2] = -1; }
            if (d == 6) { m.zu = m.wu = true; m.e[2] = 3; }
            if (d == 2 || d == 3) m.bs = d; for (int i = 0; i < 3; i++) if (m.bs == 2) m.bb[i] = i + 1; else if (m.bs == 3 && i < 2) m.bb[i] = 9 - i; else if (!m.bs) m.bb[i] = 0;
            if (m.ytab) for (int i = 0; i < 3; i++) if (m.yv[i]) m.y[i] = m.Y[i];
        }, [d](const GM &m) { return m.x < 1000 && m.e[2] < 100; });
        x.add("write tx", [](GM &m) { m.x += 11; put(tx, i4(m.x)); }); x.add("write tz", [](GM &m) { m.z = m.z / 2 - 3; put(tz, f4(m.z)); });
        x.add("write ty", [](GM &m) { m.y[0] = 100; m.y[1] = 101; m.y[2] = 102; put(ty, by({100, 0, 101, 0, 102, 0})); for (int i = 0; i < 3; i++) m.bb[i] = 50 + i; put(tb, by({50, 51, 52})); }); x.add("write tw and te", [](GM &m) { m.w = !m.w; put(tw, by({m.w})); for (int i = 0; i < 4; i++) m.e[i] = (int8_t)(20 + i); put(te, by({20, 21, 22, 23})); });
        x.add("create or write tl", [](GM &m) { if (!m.has) { tl = tag("tl", DAX_DINT, 1); m.has = true; m.l = 0; } else { m.l -= 7; put(tl, i4(m.l)); } });
        x.leaf = [](GM &m) { pass(1500); gsweep(m); if (!running()) violation("died", "the module has ended"); };
        x.run(m);
    });
}
// a run is not overtaken by its globals: many errors, many runs
static void repeated() {
    run_forked("repeated", [=]() {
        load(); tt = tag("tt", DAX_DINT, 1); ty = tag("ty", DAX_DINT, 1); tz = tag("tz", DAX_DINT, 2);
        start("event_thread_count = \"1\"\nevent_queue_size = \"4\"\nadd_script({name=\"a\",filename=\"%D/a.lua\",fail_on_error=false,trigger={tag=\"tt\",type=\"WRITE\",count=0},auto_run=false})\nadd_global_tag(\"a\",\"Y\",\"ty\",WRITE)\nadd_global_tag(\"a\",\"Z\",\"tz\",WRITE)\n", {{"a", "mark(1, Y)\nY = (Y or 0) + 1\nZ = Y % 2 == 0 and 5 or {Y, Y}\nif Y % 3 == 0 then error('three') end\n"}});
        for (int i = 1; i <= 450; i++) { put(tt, i4(i)); if (i % 3 && get(ty, 0, 4) != i4(i)) violation("tag", "after %d runs, many of them with errors, the variable is no longer written", i); if (count(1) != i) violation("runs", "%d runs after %d triggers", count(1), i); }
        S->transitions += 450; S->histories++; if (!running()) violation("died", "the module has ended");
    });
}
// trigger data of every type
static void triggerdata() {
    struct T { const char *n; uint32_t ty, c; Bytes d; string t; }; std::vector<T> ts = {{"b", DAX_BOOL, 1, by({1}), "true"}, {"y", DAX_BYTE, 1, by({0xF0}), "240"}, {"si", DAX_SINT, 1, by({0xF0}), "-16"}, {"w", DAX_WORD, 1, by({1, 0xFF}), "65281"}, {"in", DAX_INT, 1, by({1, 0xFF}), "-255"}, {"ui", DAX_UINT, 1, by({1, 0xFF}), "65281"}, {"di", DAX_DINT, 1, by({254, 255, 255, 255}), "-2"}, {"ud", DAX_UDINT, 1, by({254, 255, 255, 255}), "4294967294"},
        {"dw", DAX_DWORD, 1, by({1, 0, 0, 0x80}), "2147483649"}, {"li", DAX_LINT, 1, by({254, 255, 255, 255, 255, 255, 255, 255}), "-2"}, {"re", DAX_REAL, 1, by({0, 0, 0xC0, 0x3F}), "1.5"}, {"lr", DAX_LREAL, 1, by({0, 0, 0, 0, 0, 0, 0xF8, 0xBF}), "-1.5"}, {"ar", DAX_DINT, 3, by({1, 0, 0, 0, 2, 0, 0, 0, 3, 0, 0, 0}), "1 2 3"}, {"ba", DAX_BOOL, 3, by({5}), "true false true"}, {"be[3]", DAX_BOOL, 8, by({8}), "true"}, {"bf[6]", DAX_BOOL, 10, by({0xBF, 3}), "false"}, {"ae[1]", DAX_INT, 3, by({9, 0, 8, 0, 7, 0}), "8"}};
    run_forked("trigger-data", [=]() {
        load(); std::vector<int> id; string conf = "event_thread_count = \"2\"\nevent_queue_size = \"4\"\n"; Files f;
        for (auto &t : ts) { id.push_back(tag(string(t.n).substr(0, strcspn(t.n, "[")), t.ty, t.c)); string n = string("s") + string(t.n).substr(0, 2); conf += "add_script({name=\"" + n + "\",filename=\"%D/" + n + ".lua\",trigger={tag=\"" + t.n + "\",type=\"WRITE\",count=0},auto_run=false})\n"; f[n] = sfmt("local d = _trigger_data\nif type(d) == 'table' then mark(%zu, d[1], d[2], d[3]) else mark(%zu, d) end\n", id.size(), id.size()); }
        for (auto &t : ts) conf += string("x = ") + "'" + t.n + "'\n";
        start(conf, f);
        for (size_t i = 0; i < ts.size(); i++) { put(id[i], ts[i].d); auto v = texts((int)i + 1); if (v.size() != 1 || v[0] != ts[i].t) violation("values", "trigger tag %s written with %s: the script ran %zu times and sees \"%s\", expected \"%s\"", ts[i].n, srv::hex(ts[i].d).c_str(), v.size(), v.empty() ? "" : v.back().c_str(), ts[i].t.c_str()); S->checks++; }
        S->transitions += ts.size(); S->histories++;
    });
}
// schedules: what a run leaves behind is complete before the next run starts, whichever worker runs it
static int sx, sy, sz;
static void schedules() {
    Scn s; s.name = "counter"; s.conf = "event_thread_count = \"2\"\nevent_queue_size = \"4\"\nadd_script({name=\"a\",filename=\"%D/a.lua\",trigger={tag=\"ta\",type=\"WRITE\",count=0},auto_run=false})\nadd_global_tag(\"a\",\"N\",\"tn\",READ+WRITE)\nadd_global_tag(\"a\",\"M\",\"tm\",WRITE)\nadd_global_static(\"a\",\"K\",3)\n"; s.files = {{"a", "mark(1, N, M, K, get_executions(), _firstrun)\nN = N + K\nK = 100\nM = N\n"}};
    s.setup = [] { sx = tag("ta", DAX_DINT, 1); sy = tag("tn", DAX_DINT, 1); sz = tag("tm", DAX_DINT, 1); }; s.pre = thorough() ? 1 : 0;
    for (int i = 1; i <= 2; i++) { s.foreign.push_back([i] { send(sx, i4(i)); }); s.names.push_back("write ta"); }
    s.final = [] { auto t = texts(1); std::vector<string> w = {"0 0 3 0 true", "3 3 3 1 false"}; if (t != w) violation("values", "the runs see \"%s\" and \"%s\"", t.size() ? t[0].c_str() : "", t.size() > 1 ? t[1].c_str() : ""); if (get(sy, 0, 4) != i4(6) || get(sz, 0, 4) != i4(6)) violation("tag", "after two runs the tags hold %s and %s, expected 6", srv::hex(get(sy, 0, 4)).c_str(), srv::hex(get(sz, 0, 4)).c_str()); }; run(s);
}
static void f() { globals(thorough() ? 7 : 5); repeated(); triggerdata(); schedules(); }
static Reg r27("C27", f, "every sequence up to the depth of runs with different effects on the variables, of writes by other modules and of the late creation of a tag, for READ, WRITE and READ+WRITE variables of several types, array elements and static variables in two scripts; trigger data of every type; 450 runs with errors; every schedule of two runs on two workers, against a model of the variables and tags");
