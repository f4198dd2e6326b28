// C26: when the scripts of daxlua run.
#include "dl.h"
#include <deque>
#include <set>
using namespace dl;
static string trg(const char *k, const string &t, const char *ty, const char *more = "") { return sfmt("%s={tag=\"%s\",type=\"%s\",count=0%s}", k, t.c_str(), ty, more); }
static string add(const string &n, const string &more) { return "add_script({name=\"" + n + "\",filename=\"%D/" + n + ".lua\"" + (more.empty() ? "" : ",") + more + "})\n"; }
static string head(int threads, int queue) { return sfmt("event_thread_count = \"%d\"\nevent_queue_size = \"%d\"\n", threads, queue); }
static Bytes i4(int v) { return by({v, v >> 8, v >> 16, v >> 24}); }
static string show(const std::vector<std::pair<string, long>> &v) { string s; for (auto &x : v) s += sfmt("%s%s@%ld", s.empty() ? "" : " ", x.first.c_str(), x.second); return s; }
// ---------------------------------------------------------------- the queue in virtual time
// script i: id i+1, runs for `dur` ms; marks "b <data>" and "e"
struct QM {
    int W, Q, dur, n; std::deque<int> q; struct Wk { int s = -1; bool run = false; int64_t end = 0; }; std::vector<Wk> w; int64_t t = 0; std::vector<int> val; std::vector<std::pair<string, long>> begun; std::vector<std::vector<int>> own; std::vector<int> lastseen; int writes = 0;
    uint64_t hash() const { uint64_t h = (uint64_t)writes; for (int x : q) h = h * 31 + (uint64_t)x; for (auto &x : w) h = h * 131 + (uint64_t)(x.s + 1) * 2 + x.run + (uint64_t)(x.end - t) * 7; for (auto &b : begun) h = h * 31 + (uint64_t)b.second; for (int v : val) h = h * 31 + (uint64_t)v; return h; }
    bool busy(int s) const { for (auto &x : w) if (x.s == s && x.run) return true; return false; }
    void settle() {
        for (bool ch = true; ch;) { ch = false;
            for (auto &x : w) if (x.run && x.end <= t) { x.s = -1; x.run = false; ch = true; }
            for (auto &x : w) if (x.s >= 0 && !x.run && !busy(x.s)) { x.run = true; x.end = t + dur; begun.push_back({sfmt("%c", 'a' + x.s), (long)t}); ch = true; }
            for (auto &x : w) if (x.s < 0 && !q.empty()) { x.s = q.front(); q.pop_front(); ch = true; break; }
        }
    }
    void notify(int s) { if ((int)q.size() < Q) q.push_back(s); settle(); }
    void to(int64_t to) { for (;;) { int64_t e = INT64_MAX; for (auto &x : w) if (x.run && x.end < e) e = x.end; if (e > to) break; t = e; settle(); } t = to; settle(); }
};
typedef Explorer<QM> QX;
static void qsweep(QM &m) {
    m.to(*rt::now_ms); std::vector<std::pair<string, long>> g, want = m.begun; std::vector<int> open(8), last(8), runs(8);
    for (int i = 0; i < *nmarks; i++) { auto &k = marks[i]; int s = k.id - 1; if (k.t[0] == 'b') { g.push_back({sfmt("%c", 'a' + s), k.ms}); if (open[s]) violation("overlap", "script %c is started while it runs", 'a' + s); open[s] = 1; int d = atoi(k.t + 2); if (d < last[s]) violation("data", "script %c sees the trigger data %d after %d", 'a' + s, d, last[s]); last[s] = d; } else open[s] = 0; }
    std::sort(g.begin(), g.end()); std::sort(want.begin(), want.end()); if (g != want) violation("runs", "the scripts ran at %s, expected %s", show(g).c_str(), show(want).c_str());
    S->checks++;
}
static void queue(int W, int Q, int n, int depth) {
    string nm = sfmt("queue-w%d-q%d-s%d", W, Q, n); if (const char *o = getenv("MC_ONLY")) if (*o && nm.find(o) != 0) return;
    run_forked(nm.c_str(), [=]() {
        load(); std::vector<int> tg; string conf = head(W, Q); Files f;
        for (int i = 0; i < n; i++) { string s(1, (char)('a' + i)); tg.push_back(tag("t" + s, DAX_DINT, 1)); conf += add(s, trg("trigger", "t" + s, "WRITE") + ",auto_run=false"); f[s] = sfmt("mark(%d, 'b', _trigger_data)\nsleep(100)\nmark(%d, 'e')\n", i + 1, i + 1); }
        start(conf, f); if (!running()) violation("died", "the module does not start");
        QM m; m.W = W; m.Q = Q; m.dur = 100; m.n = n; m.w.resize((size_t)W); m.t = *rt::now_ms; m.val.resize((size_t)n); QX x; x.name = nm; x.depth = depth; x.sweep = qsweep;
        for (int i = 0; i < n; i++) x.add(sfmt("write t%c", 'a' + i), [=](QM &m) { m.to(*rt::now_ms); put(tg[(size_t)i], i4(++m.writes)); m.notify(i); });
        x.add("60 ms pass", [](QM &) { pass(60); }); x.add("all runs end", [=](QM &) { pass(100 * (Q + 3)); });
        x.leaf = [=](QM &m) { pass(1500); qsweep(m); if (!running()) violation("died", "the module has ended"); };
        x.run(m);
    });
}
// ---------------------------------------------------------------- who may run: enable, disable, failure, the status tag
struct EM { bool en, failed = false; int cmd = 0, exec = 0; bool foe; int last = 0; int bit; std::vector<int> ran; uint64_t hash() const { return (uint64_t)(en * 1 + failed * 2 + cmd * 4 + bit * 16) + (uint64_t)exec * 64; } };
typedef Explorer<EM> EX;
static const char *ES = "mark(1, _trigger_data)\nif _trigger_data == 9 then disable_self() end\nif _trigger_data == 8 then error('x') end\nif _trigger_data == 7 then pcall(error, 'x') end\nif _trigger_data == 6 then error() end\n";
static const char *PS = "c = _trigger_data\nif c == 1 then mark(2, disable_script('a')) elseif c == 2 then mark(2, enable_script('a')) elseif c == 3 then mark(2, disable_script(get_script_id('a'))) elseif c == 4 then mark(2, enable_script(0))\n"
    " elseif c == 5 then mark(2, disable_script('zz'), disable_script(-1), disable_script(99), enable_script('zz'), enable_script(-1), enable_script(2), get_script_id('zz'), get_script_name(7), get_script_name(-1), get_script_name(1), get_script_id('p')) end\n";
static int et, en_t, di_t, cm_t, st_t;
static void esweep(EM &m) {
    auto t = texts(1); std::vector<int> g; for (auto &s : t) g.push_back(atoi(s.c_str()));
    if (g != m.ran) { string a, b; for (int x : g) a += sfmt(" %d", x); for (int x : m.ran) b += sfmt(" %d", x); violation("runs", "script a ran for the trigger data%s, expected%s", a.c_str(), b.c_str()); }
    Bytes s = get(st_t, 0, 41); uint64_t ex = 0; memcpy(&ex, &s[33], 8);
    if (string((char *)s.data(), strnlen((char *)s.data(), 32)) != "a") violation("status", "the status tag has the name %.32s", (char *)s.data());
    if (!m.cmd && (s[32] & 1) != m.en) violation("status", "the status tag says enable=%d, the script is %s", s[32] & 1, m.en ? "enabled" : "disabled");
    if ((s[32] >> 1 & 1) != m.failed) violation("status", "the status tag says failed=%d, the script has %sfailed", s[32] >> 1 & 1, m.failed ? "" : "not ");
    if ((int)ex != m.exec) violation("status", "the status tag says %d executions, there were %d", (int)ex, m.exec);
    m.bit = s[32] & 1; S->checks++;
}
static void enables(bool en0, int foe, int depth) {
    string nm = sfmt("enable-%s%s", en0 ? "on" : "off", foe < 0 ? "" : foe ? "-fail" : "-nofail"); if (const char *o = getenv("MC_ONLY")) if (*o && nm.find(o) != 0) return;
    run_forked(nm.c_str(), [=]() {
        load(); et = tag("ta", DAX_DINT, 1); en_t = tag("en", DAX_BOOL, 1); di_t = tag("di", DAX_BOOL, 1); cm_t = tag("cm", DAX_DINT, 1);
        start(head(2, 4) + add("a", string(en0 ? "" : "enable=false,") + (foe < 0 ? "" : foe ? "fail_on_error=true," : "fail_on_error=false,") + trg("trigger", "ta", "WRITE") + "," + trg("enable_trigger", "en", "SET") + "," + trg("disable_trigger", "di", "SET") + ",auto_run=false") + add("p", trg("trigger", "cm", "WRITE") + ",auto_run=false"), {{"a", ES}, {"p", PS}});
        auto r = srv::tag_get(wire, "daxlua_scripts"); if (r.err) violation("status", "there is no status tag"); st_t = srv::i32(r.data);
        EM m; m.en = en0; m.foe = foe != 0; EX x; x.name = nm; x.depth = depth; x.sweep = esweep;
        for (int v : {5, 6, 7, 8, 9}) x.add(sfmt("trigger a with %d", v), [v](EM &m) { if (m.cmd) { m.en = m.cmd == 1; m.cmd = 0; } bool run = m.en && !m.failed; put(et, i4(v)); if (run) { m.ran.push_back(v); m.exec++; if (v == 9) m.en = false; if ((v == 8 || v == 6) && m.foe) m.failed = true; } });
        x.add("enable trigger", [](EM &m) { m.cmd = 1; put(en_t, by({1})); put(en_t, by({0})); }); x.add("disable trigger", [](EM &m) { m.cmd = 2; put(di_t, by({1})); put(di_t, by({0})); });
        for (int c = 1; c <= 5; c++) x.add(c == 5 ? "p uses unknown scripts" : sfmt("p %s a", c & 1 ? "disables" : "enables"), [c](EM &m) { int n = (int)texts(2).size(); put(cm_t, i4(c)); auto t = texts(2); string want = c == 5 ? "nil nil nil nil nil nil nil nil nil p 1" : "0"; if ((int)t.size() != n + 1 || t.back() != want) violation("runs", "p returns \"%s\", expected \"%s\"", (int)t.size() != n + 1 ? "(did not run)" : t.back().c_str(), want.c_str()); if (c < 5) m.cmd = c & 1 ? 2 : 1; }, [c](const EM &m) { return c != 5 || m.exec == 0; });
        for (int b : {0, 1}) x.add(sfmt("write enable=%d to the status tag", b), [b](EM &m) { auto q = srv::tmask(wire, st_t, 32, by({b}), by({1})); if (q.err) violation("status", "the status tag cannot be written: error %d", q.err); idle(); m.en = b; }, [](const EM &m) { return !m.cmd; });
        x.leaf = [](EM &m) { pass(1500); esweep(m); if (!running()) violation("died", "the module has ended"); };
        x.run(m);
    });
}
// ---------------------------------------------------------------- interval threads
struct Iv { int ms; std::vector<int> dur; };
static void intervals(const std::vector<Iv> &ts, bool extra) {
    string nm = "interval"; for (auto &t : ts) { nm += sfmt("-%d", t.ms); for (int d : t.dur) nm += sfmt("+%d", d); } if (extra) nm += "-x"; if (const char *o = getenv("MC_ONLY")) if (*o && nm.find(o) != 0) return;
    run_forked(nm.c_str(), [=]() {
        load(); string conf = head(1, 4), adds; Files f; int id = 0; std::vector<std::vector<int>> ids(ts.size());
        for (size_t k = 0; k < ts.size(); k++) conf += sfmt("add_interval_thread(\"th%s\", %d)\n", string(k, '0').c_str(), ts[k].ms);
        size_t most = 0; for (auto &t : ts) most = std::max(most, t.dur.size());
        for (size_t j = 0; j < most; j++) for (size_t k = 0; k < ts.size(); k++) if (j < ts[k].dur.size()) { ids[k].push_back(++id); string n = sfmt("s%d", id); conf += add(n, sfmt("thread=\"th%s\"", string(k, '0').c_str())); f[n] = sfmt("mark(%d, 'b', get_interval(), get_executions(), get_name(), _firstrun)\n%smark(%d, 'e')\n", id, ts[k].dur[j] ? sfmt("sleep(%d)\n", ts[k].dur[j]).c_str() : "", id); }
        if (extra) { conf += add("off", "enable=false,thread=\"th\"") + add("none", ""); f["off"] = f["none"] = "mark(99)\n"; }
        start(conf, f); int span = 0; for (auto &t : ts) span = std::max(span, t.ms * 6); pass(span + 300); if (!running()) violation("died", "the module has ended");
        if (count(99)) violation("runs", "a script that is disabled or without a thread has run");
        auto tg = srv::tag_get(wire, "daxlua_threads"); if (tg.err) violation("status", "there is no thread status tag");
        for (size_t k = 0; k < ts.size(); k++) {
            int busy = 0; for (int d : ts[k].dur) busy += d; std::vector<std::pair<int, std::pair<long, string>>> b; for (int i = 0; i < *nmarks; i++) if (std::find(ids[k].begin(), ids[k].end(), marks[i].id) != ids[k].end()) b.push_back({marks[i].id * 2 + (marks[i].t[0] == 'e'), {marks[i].ms, marks[i].t}});
            size_t per = ids[k].size() * 2; long t0 = -1, at = 0; int cyc = 0; long want = std::max(ts[k].ms, busy);
            for (size_t i = 0; i < b.size(); i++) {
                size_t j = i % per / 2; bool end = i & 1; if (b[i].first != ids[k][j] * 2 + end) violation("order", "thread %zu: step %zu of a cycle is %s of script s%d, expected %s of script s%d", k, i % per, b[i].first & 1 ? "the end" : "the start", b[i].first / 2, end ? "the end" : "the start", ids[k][j]);
                if (i % per == 0) { if (t0 >= 0 && b[i].second.first - t0 != want) violation("interval", "thread %zu (interval %d ms, scripts busy %d ms): two cycles start %ld ms apart", k, ts[k].ms, busy, b[i].second.first - t0); t0 = at = b[i].second.first; cyc++; }
                if (end) at += ts[k].dur[j]; if (b[i].second.first != at) violation("interval", "thread %zu: script s%d is at its %s after %ld ms of the cycle, expected %ld", k, ids[k][j], end ? "end" : "start", b[i].second.first - t0, at - t0);
                string txt = sfmt("b %d %d s%d %s", cyc > 1 ? (int)want * 1000 : 0, cyc - 1, ids[k][j], cyc > 1 ? "false" : "true"); if (!end && b[i].second.second != txt) violation("values", "script s%d sees get_interval(), get_executions(), get_name(), _firstrun = \"%s\", expected \"%s\"", ids[k][j], b[i].second.second.c_str() + 2, txt.c_str() + 2);
                S->checks++; outcome((uint64_t)(b[i].second.first - t0) * 64 + i % per);
            }
            if ((long)cyc < span / want || cyc < 3) violation("interval", "thread %zu (interval %d ms): only %d cycles in %d ms", k, ts[k].ms, cyc, span);
            Bytes s = srv::tread(wire, srv::i32(tg.data), (uint32_t)(44 * k), 44).data; uint32_t v[3]; if (s.size() != 44) violation("status", "the thread status tag is too short"); memcpy(v, &s[32], 12);
            if (strcmp((char *)s.data(), ("th" + string(k, '0')).c_str()) || (int)v[0] != ts[k].ms || v[1] != ts[k].dur.size() + (extra && !k)) violation("status", "thread %zu: the status tag says name %.8s interval %u scripts %u", k, (char *)s.data(), v[0], v[1]);
            if (busy <= ts[k].ms ? v[2] != 0 : v[2] + 2 < (uint32_t)cyc || v[2] > (uint32_t)cyc) violation("status", "thread %zu: %u overruns are counted in %d cycles of %d ms with an interval of %d ms", k, v[2], cyc, busy, ts[k].ms);
        }
        S->histories++; S->transitions += (uint64_t)*nmarks;
    });
}
// ---------------------------------------------------------------- many scripts; the run at start
static void autorun(int n, int W, int Q, bool many, int pre = 1) {
    string nm = sfmt("%s-n%d-w%d-q%d", many ? "many" : "autorun", n, W, Q);
    Scn s; s.name = nm; s.conf = head(W, Q); s.from_start = !many; s.pre = pre; s.settle = 1100;
    for (int i = 0; i < n; i++) { string a = sfmt("s%d", i); s.conf += add(a, i == 1 && !many ? trg("trigger", "tt", "WRITE") + ",auto_run=false" : i == 2 && !many ? "enable=false," + trg("trigger", "tt", "WRITE") : trg("trigger", many ? sfmt("t%d", i) : "tt", "WRITE") + ",auto_run=true"); s.files[a] = sfmt("mark(%d, _trigger_data, _firstrun, get_script_id('s%d'), get_script_name(%d))\n", i + 1, i, i); }
    static int t; s.setup = [=] { t = tag("tt", DAX_DINT, 1); if (many) for (int i = 0; i < n; i++) tag(sfmt("t%d", i), DAX_DINT, 1); };
    s.final = [=] {
        for (int i = 0; i < n; i++) { auto v = texts(i + 1); size_t want = !many && (i == 1 || i == 2) ? 0 : 1; if (v.size() != want) violation("autorun", "script s%d runs %zu times at start, expected %zu", i, v.size(), want); string w = sfmt("nil true %d s%d", i, i); if (want && v[0] != w) violation("values", "script s%d sees \"%s\" on its first run, expected \"%s\"", i, v[0].c_str(), w.c_str()); }
        if (many) for (int i = 0; i < n; i++) { auto r = srv::tag_get(wire, sfmt("t%d", i)); put(srv::i32(r.data), i4(40 + i)); auto v = texts(i + 1); string w = sfmt("%d false %d s%d", 40 + i, i, i); if (v.size() != 2 || v[1] != w) violation("runs", "script s%d after its trigger: %zu runs, last \"%s\"", i, v.size(), v.back().c_str()); }
        else { if (Q >= n) { put(t, i4(77)); for (int i = 0; i < n; i++) if (i != 2 && texts(i + 1).size() != (i == 1 ? 1 : 2)) violation("runs", "script s%d has run %zu times after one trigger", i, texts(i + 1).size()); } }
    };
    run(s);
}
// ---------------------------------------------------------------- schedules
static int sa, sb, sc;
static void pairs(int id, const char *who) { int open = 0; for (int i = 0; i < *nmarks; i++) if (marks[i].id == id) { if (marks[i].t[0] == 'b') { if (open) violation("overlap", "script %s is started while it runs", who); open = 1; } else { if (!open) violation("overlap", "script %s ends twice", who); open = 0; } } if (open) violation("hang", "script %s never ends", who); }
static int begins(int id) { int n = 0; for (int i = 0; i < *nmarks; i++) if (marks[i].id == id && marks[i].t[0] == 'b') n++; return n; }
static int lastdata(int id) { int d = -1; for (int i = 0; i < *nmarks; i++) if (marks[i].id == id && marks[i].t[0] == 'b') { int v = atoi(marks[i].t + 2); if (v < d) violation("data", "trigger data %d after %d", v, d); d = v; } return d; }
static void schedules() {
    bool th = thorough(); auto set = [] { sa = tag("ta", DAX_DINT, 1); sb = tag("tb", DAX_DINT, 1); sc = tag("tc", DAX_BOOL, 1); };
    const char *body = "mark(%d, 'b', _trigger_data)\n_G.v = tag_read('tb')\nmark(%d, 'e')\n"; auto bod = [&](int i) { return sfmt(body, i, i); };
    { Scn s; s.name = "one-worker"; s.conf = head(1, 4) + add("a", trg("trigger", "ta", "WRITE") + ",auto_run=false"); s.files = {{"a", bod(1)}}; s.setup = set; s.pre = th ? 2 : 1;
      for (int i = 1; i <= 3; i++) { s.foreign.push_back([i] { send(sa, i4(i)); }); s.names.push_back(sfmt("write ta=%d", i)); }
      s.final = [] { pairs(1, "a"); if (begins(1) != 3) violation("runs", "%d runs for three triggers", begins(1)); if (lastdata(1) != 3) violation("data", "the last run sees the trigger data %d, not 3", lastdata(1)); }; run(s); }
    { Scn s; s.name = "two-workers"; s.conf = head(2, 4) + add("a", trg("trigger", "ta", "WRITE") + ",auto_run=false") + add("b", trg("trigger", "tb", "WRITE") + ",auto_run=false"); s.files = {{"a", bod(1)}, {"b", bod(2)}}; s.setup = set; s.pre = th ? 2 : 1;
      s.foreign = {[] { send(sa, i4(1)); }, [] { send(sb, i4(2)); }, [] { send(sa, i4(3)); }}; s.names = {"write ta=1", "write tb=2", "write ta=3"};
      s.final = [] { pairs(1, "a"); pairs(2, "b"); if (begins(1) != 2 || begins(2) != 1) violation("runs", "%d runs of a for two triggers, %d of b for one", begins(1), begins(2)); if (lastdata(1) != 3 || lastdata(2) != 2) violation("data", "the last runs see the trigger data %d and %d, not 3 and 2", lastdata(1), lastdata(2)); }; run(s); }
    { Scn s; s.name = "small-queue"; s.conf = head(1, 2) + add("a", trg("trigger", "ta", "WRITE") + ",auto_run=false"); s.files = {{"a", bod(1)}}; s.setup = set; s.pre = th ? 1 : 0;
      for (int i = 1; i <= 5; i++) { s.foreign.push_back([i] { send(sa, i4(i)); }); s.names.push_back(sfmt("write ta=%d", i)); }
      s.final = [] { pairs(1, "a"); int n = begins(1); if (n < 2 || n > 5) violation("runs", "%d runs for five triggers and a queue of two", n); if (lastdata(1) != 5) violation("data", "the last run sees the trigger data %d, not 5", lastdata(1)); put(sa, i4(6)); if (begins(1) != n + 1) violation("runs", "the next trigger is lost"); }; run(s); }
    for (int k = 0; k < 2; k++) { Scn s; s.name = k ? "fail-pending" : "disable-pending"; s.conf = head(2, 4) + add("a", trg("trigger", "ta", "WRITE") + ",auto_run=false"); s.files = {{"a", string("mark(1, 'b', _trigger_data)\n_G.v = tag_read('tb')\nmark(1, 'e')\n") + (k ? "error('no')\n" : "disable_self()\n")}}; s.setup = set; s.pre = th ? 2 : 1;
      s.foreign = {[] { send(sa, i4(1)); }, [] { send(sa, i4(2)); }}; s.names = {"write ta=1", "write ta=2"};
      s.final = [k] { pairs(1, "a"); if (begins(1) != 1) violation(k ? "failed" : "disabled", "a script that %s on its first run has run %d times", k ? "fails" : "disables itself", begins(1)); put(sa, i4(3)); if (begins(1) != 1) violation(k ? "failed" : "disabled", "the script runs again after it %s", k ? "failed" : "disabled itself"); Bytes b = get(srv::i32(srv::tag_get(wire, "daxlua_scripts").data), 0, 41); if (b[32] != (k ? 3 : 0) || b[33] != 1) violation("status", "the status tag says flags %d, %d executions", b[32], b[33]); }; run(s); }
    { Scn s; s.name = "disable-second"; s.conf = head(1, 4) + add("a", trg("trigger", "ta", "WRITE") + ",auto_run=false"); s.files = {{"a", "mark(1, 'b', _trigger_data)\nmark(1, 'e')\nif get_executions() == 1 then disable_self() end\n"}}; s.setup = set; s.pre = th ? 2 : 1;
      s.foreign = {[] { send(sa, i4(1)); }, [] { send(sa, i4(2)); }}; s.names = {"write ta=1", "write ta=2"};
      s.final = [] { pairs(1, "a"); put(sa, i4(3)); if (begins(1) != 2) violation("disabled", "a script that disables itself on its second run has run %d times", begins(1)); Bytes b = get(srv::i32(srv::tag_get(wire, "daxlua_scripts").data), 0, 41); if (b[32] != 0 || b[33] != 2) violation("status", "the status tag says flags %d, %d executions", b[32], b[33]); }; run(s); }
    { Scn s; s.name = "peer-disables"; s.conf = head(2, 4) + add("a", trg("trigger", "ta", "WRITE") + ",auto_run=false"); s.files = {{"a", bod(1)}}; s.setup = set; s.pre = 1; static int st; s.ready = [] { st = srv::i32(srv::tag_get(wire, "daxlua_scripts").data); };
      s.foreign = {[] { send(sa, i4(1)); }, [] { srv::B b; b.u32((uint32_t)st).u32(32).u8(0).u8(1); send_raw(MSG_TAG_MWRITE, b); }}; s.names = {"write ta=1", "write enable=0 to the status tag"};
      s.final = [] { pairs(1, "a"); int n = begins(1); if (n > 1) violation("runs", "%d runs for one trigger", n); put(sa, i4(2)); if (begins(1) != n) violation("disabled", "the script runs after another module disabled it through the status tag"); Bytes b = get(st, 0, 41); if (b[32] != 0) violation("status", "the status tag says flags %d", b[32]); }; run(s); }
    { Scn s; s.name = "thread-and-trigger"; s.conf = head(1, 4) + "add_interval_thread('th', 1000)\n" + add("a", "thread=\"th\"," + trg("trigger", "ta", "WRITE") + ",auto_run=false"); s.files = {{"a", bod(1)}}; s.setup = set; s.pre = 1; s.settle = 900;
      s.foreign = {[] { send(sa, i4(1)); }, [] { rt::fire_earliest_deadline(); }, [] { send(sa, i4(2)); }}; s.names = {"write ta=1", "time passes", "write ta=2"};
      s.final = [] { pairs(1, "a"); if (begins(1) < 3) violation("runs", "%d runs for two triggers and the interval thread", begins(1)); }; run(s); }
}
static void f() {
    bool th = thorough();
    queue(1, 1, 1, th ? 12 : 8); queue(1, 2, 2, th ? 10 : 8); queue(1, 3, 1, th ? 13 : 11); queue(2, 2, 2, th ? 10 : 8); queue(2, 3, 3, th ? 9 : 7); queue(3, 2, 2, th ? 10 : 7); queue(2, 4, 1, th ? 13 : 10);
    for (int foe : {-1, 0, 1}) for (int e : {1, 0}) enables(e, foe, th ? 6 : foe < 0 ? 5 : 4);
    for (int ms : {40, 100, 250, 1000}) for (int d : {0, 1, 30, 60, 100, 130}) if (th || ms < 1000 || d < 50) { intervals({{ms, {d}}}, false); intervals({{ms, {d, 20}}}, d == 30); }
    intervals({{100, {10, 0, 30}}, {70, {0}}, {40, {50, 0}}}, true); intervals({{1000, {0}}, {300, {0, 0}}, {200, {0, 10}}}, false);
    autorun(4, 1, 2, false); autorun(3, 2, 3, false, 0); if (th) autorun(3, 2, 3, false, 1); autorun(5, 1, 1, false); autorun(15, 2, 20, true); autorun(16, 2, 20, true); autorun(17, 2, 20, true); autorun(33, 1, 40, true);
    schedules();
}
static Reg r26("C26", f, "every sequence up to the depth of trigger notifications, passing time, enable and disable commands from triggers, scripts and other modules, errors and self-disabling, for one to three worker threads and queues of one to four; interval threads with every listed interval and script duration; every schedule of the module's threads up to the preemption bound, from the start of the module and around triggers, against a model of the queue, the interval and the enabled state");
