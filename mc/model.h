// Reference model of the tag server: a deliberately plain statement of what the server promises, together with
// a driver that performs each operation on the real server and on the model and compares replies, notifications
// and (sweep) the complete visible contents.
#pragma once
#include "srv.h"
#include <deque>
#include <cmath>
namespace md {
using namespace ex; using srv::H; using srv::Reply;
inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 32); }
inline uint64_t mixb(uint64_t h, const Bytes &b) { h = mix(h, b.size()); for (auto x : b) h = mix(h, x); return h; }
inline uint64_t mixs(uint64_t h, const string &b) { h = mix(h, b.size()); for (unsigned char x : b) h = mix(h, x); return h; }
enum { CARE_ALL = 0 };
struct XEv { int conn; uint32_t type; int idx, id; Bytes data; bool must; };
struct MEv { int id, conn; H h; int type; Bytes val; uint32_t opt; std::vector<uint8_t> st; Bytes last; };
struct MMap { int id; H s, d; };
struct MTag {
    int idx = -1; bool live = false; string name; uint32_t type = 0, count = 0; uint32_t attr = 0; int owner = -1; bool sys = false, special = false, virt = false;
    Bytes data, care; std::vector<MEv> ev; std::vector<MMap> maps; int nev = 1, nmap = 1;
    bool ov = false, ovs = false; Bytes od, om; bool queue = false; std::deque<Bytes> q;
};
struct Grp { bool used = false; std::vector<H> m; };
struct Conn { int c = -1; bool open = false, reg = false; string name; int tagidx = -1; std::map<int, Grp> grp; };
struct Member { string name; uint32_t type, count; };
struct Cdt { string name, def; std::vector<Member> m; size_t size; };
inline uint32_t base_bits(uint32_t t) { return 1u << (t & 0x0f); }
struct Sys {
    std::map<int, MTag> t; std::vector<Conn> cn; std::vector<Cdt> cdts; int next = 0; int ncount = 0; int nov = 0, novs = 0; string lastmod; bool lastmod_known = false;
    bool sweep_sys = true;
    // ---------------- basics
    size_t tsize(uint32_t type) const { if (type == (DAX_BOOL | DAX_QUEUE)) return 1; type &= ~DAX_QUEUE; if (type & DAX_CUSTOM) { size_t i = type & ~DAX_CUSTOM; return i < cdts.size() ? cdts[i].size : 0; } return base_bits(type) / 8; }
    size_t bytes(uint32_t type, uint32_t count) const { if ((type & ~DAX_QUEUE) == DAX_BOOL && !(type & DAX_QUEUE)) return (count + 7) / 8; return tsize(type) * count; }
    static bool btype(uint32_t t) { static const uint32_t L[] = {DAX_BOOL, DAX_BYTE, DAX_SINT, DAX_CHAR, DAX_WORD, DAX_INT, DAX_UINT, DAX_DWORD, DAX_DINT, DAX_UDINT, DAX_TIME, DAX_REAL, DAX_LWORD, DAX_LINT, DAX_ULINT, DAX_LREAL}; for (auto x : L) if (x == t) return true; return false; }
    bool vtype(uint32_t t) const { t &= ~DAX_QUEUE; if (t & DAX_CUSTOM) return (t & ~DAX_CUSTOM) < cdts.size(); return btype(t); }
    static bool vname(const string &n) { if (n.empty() || n.size() > DAX_TAGNAME_SIZE) return false; auto al = [](unsigned char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }; if (!al(n[0]) && n[0] != '_') return false; for (unsigned char c : n) if (!al(c) && c != '_' && !(c >= '0' && c <= '9')) return false; return true; }
    MTag *byname(const string &n) { for (auto &x : t) if (x.second.live && x.second.name == n) return &x.second; return nullptr; }
    MTag *live(int i) { auto it = t.find(i); return it == t.end() || !it->second.live ? nullptr : &it->second; }
    Conn &C(int i) { return cn[i]; }
    H whole(int i) { MTag &x = t[i]; return H{i, 0, 0, x.count, (uint32_t)bytes(x.type, x.count), x.type}; }
    H elem(int i, uint32_t e, uint32_t n) { MTag &x = t[i]; if (x.type == DAX_BOOL) return H{i, e / 8, (uint8_t)(e % 8), n, (e % 8 + n + 7) / 8, x.type}; uint32_t s = (uint32_t)tsize(x.type); return H{i, e * s, 0, n, n * s, x.type}; }
    uint64_t hash() const {
        uint64_t h = mix(next, ncount); h = mixs(mix(h, nov * 100 + novs), lastmod);
        for (auto &x : t) { const MTag &m = x.second; h = mix(h, x.first * 2 + m.live); if (!m.live) continue; h = mixs(h, m.name); h = mix(mix(h, m.type), m.count); h = mix(h, m.attr * 100 + m.owner); h = mixb(h, m.data);
            for (auto &e : m.ev) { h = mix(h, e.id * 1000 + e.conn * 100 + e.type + e.opt * 77777); h = mixb(mixb(mixb(h, e.val), e.last), e.st); }
            for (auto &p : m.maps) h = mix(h, p.id); h = mix(h, m.ov * 2 + m.ovs); h = mixb(mixb(h, m.od), m.om); for (auto &e : m.q) h = mixb(h, e); }
        for (auto &c : cn) { h = mix(h, c.c * 4 + c.open * 2 + c.reg); h = mix(h, c.tagidx); for (auto &g : c.grp) h = mix(h, g.first * 2 + g.second.used); }
        return mix(h, cdts.size());
    }
    // ---------------- model primitives
    std::vector<XEv> exp;                        // notifications expected from the current operation
    static bool ranges(uint32_t a, uint32_t an, uint32_t b, uint32_t bn) { return a < b + bn && b < a + an; }
    static int cmpv(uint32_t ty, const uint8_t *a, const uint8_t *b) {
        auto c = [](auto x, auto y) { return x < y ? -1 : x > y ? 1 : 0; };
#define CM(T) { T x, y; memcpy(&x, a, sizeof x); memcpy(&y, b, sizeof y); return c(x, y); }
        switch (ty) { case DAX_BYTE: CM(uint8_t) case DAX_SINT: case DAX_CHAR: CM(int8_t) case DAX_WORD: case DAX_UINT: CM(uint16_t) case DAX_INT: CM(int16_t) case DAX_DWORD: case DAX_UDINT: CM(uint32_t) case DAX_DINT: CM(int32_t)
            case DAX_LWORD: case DAX_ULINT: CM(uint64_t) case DAX_LINT: case DAX_TIME: CM(int64_t) case DAX_REAL: CM(float) case DAX_LREAL: CM(double) }
#undef CM
        return -9;
    }
    static bool band(uint32_t ty, const uint8_t *a, const uint8_t *b, const uint8_t *d) {   // |a-b| >= d, exactly
#define BD(T) { T x, y, z; memcpy(&x, a, sizeof x); memcpy(&y, b, sizeof y); memcpy(&z, d, sizeof z); __int128 q = (__int128)x - (__int128)y; if (q < 0) q = -q; return q >= (__int128)z; }
#define BF(T) { T x, y, z; memcpy(&x, a, sizeof x); memcpy(&y, b, sizeof y); memcpy(&z, d, sizeof z); return (T)std::fabs(x - y) >= z; }
        switch (ty) { case DAX_BYTE: BD(uint8_t) case DAX_SINT: case DAX_CHAR: BD(int8_t) case DAX_WORD: case DAX_UINT: BD(uint16_t) case DAX_INT: BD(int16_t) case DAX_DWORD: case DAX_UDINT: BD(uint32_t) case DAX_DINT: BD(int32_t)
            case DAX_LWORD: case DAX_ULINT: BD(uint64_t) case DAX_LINT: case DAX_TIME: BD(int64_t) case DAX_REAL: BF(float) case DAX_LREAL: BF(double) }
#undef BD
#undef BF
        return false;
    }
    static bool bitat(const Bytes &d, uint32_t n) { return n / 8 < d.size() && (d[n / 8] >> (n % 8) & 1); }
    static bool cond(const MEv &e, const Bytes &d, uint32_t el, uint32_t es) {
        if (e.type == EVENT_SET) return bitat(d, e.h.byte * 8 + e.h.bit + el);
        if (e.type == EVENT_RESET) return !bitat(d, e.h.byte * 8 + e.h.bit + el);
        int c = cmpv(e.h.type, &d[e.h.byte + el * es], e.val.data());
        return e.type == EVENT_EQUAL ? c == 0 : e.type == EVENT_GREATER ? c > 0 : c < 0;
    }
    void emit(const MTag &m, const MEv &e, bool must) { Bytes d; if ((e.opt & EVENT_OPT_SEND_DATA) && m.queue) d = m.q.back(); else if (e.opt & EVENT_OPT_SEND_DATA) d.assign(m.data.begin() + e.h.byte, m.data.begin() + std::min<size_t>(m.data.size(), e.h.byte + e.h.size)); if (d.size() + 16 > 4096) return; exp.push_back({e.conn, (uint32_t)e.type, m.idx, e.id, d, must}); }
    void eval(MTag &m, MEv &e, const Bytes &old, uint32_t off, uint32_t size, const Bytes *mask) {
        if (!size || !ranges(off, size, e.h.byte, e.h.size)) return;
        uint32_t es = (uint32_t)tsize(e.h.type);
        switch (e.type) {
        case EVENT_WRITE: { bool must = true;
            if (e.h.type == DAX_BOOL && !m.queue) { must = false; for (uint32_t k = 0; k < e.h.count; k++) { uint32_t b = e.h.byte * 8 + e.h.bit + k; if (b / 8 >= off && b / 8 < off + size && (!mask || ((*mask)[b / 8 - off] >> (b % 8) & 1))) must = true; } }
            else if (mask) { must = false; for (uint32_t k = 0; k < size; k++) if ((*mask)[k] && off + k >= e.h.byte && off + k < e.h.byte + e.h.size) must = true; }
            emit(m, e, must); break; }
        case EVENT_CHANGE: { bool ch = false;
            if (e.h.type == DAX_BOOL) { for (uint32_t k = 0; k < e.h.count; k++) { uint32_t b = e.h.byte * 8 + e.h.bit + k; if (bitat(old, b) != bitat(m.data, b)) ch = true; } }
            else for (uint32_t k = 0; k < e.h.size; k++) if (old[e.h.byte + k] != m.data[e.h.byte + k]) ch = true;
            if (ch) emit(m, e, true); break; }
        case EVENT_SET: case EVENT_RESET: case EVENT_EQUAL: case EVENT_GREATER: case EVENT_LESS: {
            bool bits = e.type == EVENT_SET || e.type == EVENT_RESET; bool must = false, may = false;
            for (uint32_t k = 0; k < e.h.count; k++) {
                uint32_t b0 = bits ? (e.h.byte * 8 + e.h.bit + k) / 8 : e.h.byte + k * es; bool touched = ranges(off, size, b0, bits ? 1 : es);
                if (!touched && !bits) continue;
                bool c = cond(e, m.data, k, es);
                if (!c) { if (touched || e.st[k] != 2) e.st[k] = 0; continue; }
                if (e.st[k] == 0) { must = true; e.st[k] = 1; }
                else if (e.st[k] == 2) { may = true; if (touched) e.st[k] = 1; }
            }
            if (must || may) emit(m, e, must); break; }
        case EVENT_DEADBAND: { bool f = false;
            for (uint32_t k = 0; k < e.h.count; k++) { uint32_t b0 = e.h.byte + k * es; if (!ranges(off, size, b0, es)) continue; if (band(e.h.type, &m.data[b0], &e.last[k * es], e.val.data())) { f = true; memcpy(&e.last[k * es], &m.data[b0], es); } }
            if (f) emit(m, e, true); break; }
        }
    }
    void store(MTag &m, uint32_t off, const Bytes &d, const Bytes *mask) {
        Bytes old = m.data;
        for (size_t k = 0; k < d.size(); k++) { uint8_t mk = mask ? (*mask)[k] : 0xff; if (off + k < m.data.size()) m.data[off + k] = (uint8_t)((m.data[off + k] & ~mk) | (d[k] & mk)); }
        for (auto &e : m.ev) eval(m, e, old, off, (uint32_t)d.size(), mask);
    }
    void mapcopy(MTag &m, uint32_t off, uint32_t size) {
        for (auto &p : m.maps) {
            if (!size || !ranges(off, size, p.s.byte, p.s.size)) continue;
            MTag *d = live(p.d.index); if (!d) continue;
            if ((d->attr & TAG_ATTR_READONLY) || d->virt) continue;
            if (d->special && !(p.d.byte == 77 && (p.s.type == DAX_BOOL ? p.d.bit + p.s.count <= 8 : p.s.size == 1))) continue;
            if (p.s.type == DAX_BOOL) {
                uint32_t n = (p.d.bit + p.s.count + 7) / 8; Bytes nd(n), mk(n);
                for (uint32_t k = 0; k < p.s.count; k++) { uint32_t b = p.d.bit + k; mk[b / 8] |= (uint8_t)(1 << b % 8); if (bitat(m.data, p.s.byte * 8 + p.s.bit + k)) nd[b / 8] |= (uint8_t)(1 << b % 8); }
                store(*d, p.d.byte, nd, &mk);
            } else { Bytes nd(m.data.begin() + p.s.byte, m.data.begin() + p.s.byte + p.s.size); store(*d, p.d.byte, nd, nullptr); }
        }
    }
    void sysset(int idx, const Bytes &d, uint32_t off = 0) { MTag *m = live(idx); if (m) store(*m, off, d, nullptr); }
    static Bytes le32(uint32_t v) { Bytes b(4); memcpy(b.data(), &v, 4); return b; }
    // ---------------- comparison of notifications
    void expect_events(const char *what) {
        for (auto &c : cn) if (c.open) { auto v = srv::drain(c.c); if (!v.empty()) violation("protocol", "%s: connection %d received an unexpected reply (command %u)", what, (int)(&c - &cn[0]), v[0].cmd); }
        std::vector<char> used(exp.size());
        for (auto &e : srv::events) {
            int ci = -1; for (size_t k = 0; k < cn.size(); k++) if (cn[k].c == e.conn) ci = (int)k;
            bool ok = false; bool near = false;
            for (size_t k = 0; k < exp.size() && !ok; k++) if (!used[k] && exp[k].conn == ci && exp[k].type == e.type && exp[k].idx == e.idx && exp[k].id == e.id) { if (exp[k].data == e.data) { used[k] = 1; ok = true; } else near = true; }
            if (!ok) violation("event", "%s: connection %d received %s notification type %u for tag %d event %d data %s", what, ci, near ? "a wrong-data" : "an unexpected", e.type, e.idx, e.id, srv::hex(e.data).c_str());
        }
        for (size_t k = 0; k < exp.size(); k++) if (!used[k] && exp[k].must && cn[exp[k].conn].open) violation("event", "%s: connection %d did not receive the notification type %u for tag %d event %d", what, exp[k].conn, exp[k].type, exp[k].idx, exp[k].id);
        S->checks++; exp.clear(); srv::events.clear();
    }
    void want(const char *what, const Reply &r, bool ok) {
        S->checks++; outcome(mixs(mix(r.err ? 7 : 3, r.cmd), string(what)));
        if (ok && r.err) violation("refused", "%s: a valid request was refused with error %d", what, r.err);
        if (!ok && !r.err) violation("accepted", "%s: an invalid request was accepted (reply %s)", what, srv::hex(r.data).c_str());
    }
    void begin() { exp.clear(); srv::events.clear(); }
    // ---------------- operations (index ci: position in cn)
    int connect() { Conn c; c.c = srv::connect(); c.open = true; cn.push_back(c); return (int)cn.size() - 1; }
    int reconnect(int ci) { cn[ci] = Conn(); cn[ci].c = srv::connect(); cn[ci].open = true; return ci; }
    void note_added(MTag &m, uint32_t attr) { Bytes d(47, 0); memcpy(&d[0], &m.idx, 4); memcpy(&d[4], &m.type, 4); memcpy(&d[8], &m.count, 4); uint16_t a = (uint16_t)attr; memcpy(&d[12], &a, 2); memcpy(&d[14], m.name.c_str(), m.name.size()); sysset(2, d); }
    int model_add(const string &n, uint32_t type, uint32_t count, uint32_t attr, int owner) {
        MTag m; m.idx = next; m.live = true; m.name = n; m.type = type; m.count = count; m.queue = type & DAX_QUEUE; m.data.assign(bytes(type, count), 0); m.owner = owner;
        if ((attr & TAG_ATTR_OWNED) && !(attr & TAG_ATTR_RETAIN)) { m.attr |= TAG_ATTR_OWNED; if (attr & TAG_ATTR_READONLY) m.attr |= TAG_ATTR_READONLY; }
        if (m.queue) m.virt = true;
        t[next] = m; int i = next++; ncount++;
        sysset(1, le32((uint32_t)i)); sysset(0, le32((uint32_t)ncount)); note_added(t[i], attr);
        return i;
    }
    void model_del(int i) {
        MTag &m = t[i];
        for (auto &e : m.ev) if (e.type == EVENT_DELETED) emit(m, e, true);
        if (m.ov) { nov--; sysset(7, le32(nov)); } if (m.ovs) { novs--; sysset(8, le32(novs)); }
        m.ev.clear(); m.maps.clear();
        Bytes d(47, 0); memcpy(&d[0], &m.idx, 4); memcpy(&d[4], &m.type, 4); memcpy(&d[8], &m.count, 4); memcpy(&d[14], m.name.c_str(), m.name.size());
        m.live = false; m.data.clear(); m.q.clear(); m.ov = m.ovs = false; m.attr = 0;
        sysset(3, d); ncount--; sysset(0, le32((uint32_t)ncount));
    }
    int tag_add(int ci, const string &n, uint32_t type, uint32_t count, uint32_t attr = 0) {
        begin(); string w = sfmt("conn %d tag_add %s type 0x%x count %u attr 0x%x", ci, n.c_str(), type, count, attr);
        Reply r = srv::tag_add(cn[ci].c, n, type, count, attr);
        bool ok = vname(n) && n[0] != '_' && vtype(type) && count > 0; MTag *m = ok ? byname(n) : nullptr; bool grow = false;
        if (m) { if ((m->attr & TAG_ATTR_OWNED) && m->owner != ci) ok = false; else if (m->type != type) ok = false; else { grow = m->count < count; if (grow && m->queue) ok = false; } }
        if (ok && (uint64_t)bytes(type, count) > INT32_MAX) ok = false;
        want(w.c_str(), r, ok); int res = -1;
        if (ok) {
            int i = srv::i32(r.data);
            if (m) {
                if (i != m->idx) violation("index", "%s: re-adding returned index %d, the tag is %d", w.c_str(), i, m->idx);
                if (grow) { m->count = count; m->data.resize(bytes(type, count), 0); if (m->ov) { m->od.resize(m->data.size(), 0); m->om.resize(m->data.size(), 0); } sysset(2, le32((uint32_t)i)); MTag *a = live(2); if (a) { if (a->care.empty()) a->care.assign(47, 1); for (int k = 4; k < 47; k++) a->care[k] = 0; for (auto &x : exp) if (x.idx == 2) x.must = true; } }
                if ((attr & TAG_ATTR_OWNED) && !(attr & TAG_ATTR_RETAIN)) { m->attr |= TAG_ATTR_OWNED; m->owner = ci; if (attr & TAG_ATTR_READONLY) m->attr |= TAG_ATTR_READONLY; }
            } else {
                if (i < next && t.count(i)) violation("index", "%s: index %d was handed out before", w.c_str(), i);
                if (i != next) violation("index", "%s: returned index %d, expected the next index %d", w.c_str(), i, next);
                model_add(n, type, count, attr, ci);
            }
            res = i;
        }
        expect_events(w.c_str()); return res;
    }
    void tag_del(int ci, int i) { begin(); string w = sfmt("conn %d tag_del %d", ci, i); Reply r = srv::tag_del(cn[ci].c, i); MTag *m = live(i); bool ok = m && m->name[0] != '_'; want(w.c_str(), r, ok); if (ok) model_del(i); expect_events(w.c_str()); }
    bool may_write(int ci, MTag &m, uint32_t off, uint32_t size) {
        if (m.special) { if (off == 77 && size == 1) return true; return cn[ci].reg && cn[ci].tagidx == m.idx && off >= 12; }
        if (m.virt && !m.queue) return false;
        if (m.attr & TAG_ATTR_READONLY) return (m.attr & TAG_ATTR_OWNED) && m.owner == ci;
        return true;
    }
    // is [off,off+size) inside the tag?  1 yes, 0 no, -1: BOOL slack byte, not judged
    static bool inside(uint64_t size, uint32_t off, uint64_t n) { return (int32_t)off >= 0 && (uint64_t)off + n <= size; }
    bool apply_write(int ci, int i, uint32_t off, const Bytes &d, const Bytes *mask) {   // model only; true if permitted
        MTag *m = live(i); if (!m || !may_write(ci, *m, off, (uint32_t)d.size())) return false;
        if (m->queue) { if (mask || off || d.size() != m->data.size()) return false; m->q.push_back(d); for (auto &e : m->ev) emit(*m, e, true); return true; }
        if (!inside(m->data.size(), off, d.size())) return false;
        store(*m, off, d, mask); return true;
    }
    void write(int ci, int i, uint32_t off, const Bytes &d) {
        begin(); string w = sfmt("conn %d write tag %d offset %d %s", ci, i, (int)off, srv::hex(d).c_str());
        Reply r = srv::twrite(cn[ci].c, i, off, d); bool ok = apply_write(ci, i, off, d, nullptr); want(w.c_str(), r, ok);
        if (ok && !t[i].queue) mapcopy(t[i], off, (uint32_t)d.size());
        expect_events(w.c_str());
    }
    void mwrite(int ci, int i, uint32_t off, const Bytes &d, const Bytes &mk) {
        begin(); string w = sfmt("conn %d masked write tag %d offset %d data %s mask %s", ci, i, (int)off, srv::hex(d).c_str(), srv::hex(mk).c_str());
        Reply r = srv::tmask(cn[ci].c, i, off, d, mk); bool ok = apply_write(ci, i, off, d, &mk); want(w.c_str(), r, ok);
        if (ok) mapcopy(t[i], off, (uint32_t)d.size());
        expect_events(w.c_str());
    }
    Bytes visible(const MTag &m) const { Bytes v = m.data; if (m.ovs) for (size_t k = 0; k < v.size(); k++) v[k] = (uint8_t)((v[k] & ~m.om[k]) | (m.od[k] & m.om[k])); return v; }
    void read(int ci, int i, uint32_t off, uint32_t size) {   // also pops queues
        begin(); string w = sfmt("conn %d read tag %d offset %d size %d", ci, i, (int)off, (int)size);
        Reply r = srv::tread(cn[ci].c, i, off, size); MTag *m = live(i);
        if (m && m->queue) {
            bool ok = off == 0 && size == m->data.size() && !m->q.empty(); want(w.c_str(), r, ok);
            if (ok) { if (r.data != m->q.front()) violation("value", "%s: got %s, next element is %s", w.c_str(), srv::hex(r.data).c_str(), srv::hex(m->q.front()).c_str()); m->q.pop_front(); }
            else if (off == 0 && size == m->data.size() && r.err != ERR_EMPTY) violation("value", "%s: empty queue reported as error %d", w.c_str(), r.err);
        } else if (m && !m->virt) {
            bool ok = (int32_t)size >= 0 && inside(m->data.size(), off, size) && size <= 4088; want(w.c_str(), r, ok);
            if (ok) { Bytes v = visible(*m); Bytes x(v.begin() + off, v.begin() + off + size); if (r.data != x) violation("value", "%s: got %s, expected %s", w.c_str(), srv::hex(r.data).c_str(), srv::hex(x).c_str()); }
        } else if (!m) want(w.c_str(), r, false);
        expect_events(w.c_str());
    }
    // ---------------- events
    int ev_add(int ci, H h, int type, const Bytes &val = {}, uint32_t opt = 0) {
        begin(); string w = sfmt("conn %d event_add tag %d byte %u bit %u count %u size %u type 0x%x kind %d value %s", ci, h.index, h.byte, h.bit, h.count, h.size, h.type, type, srv::hex(val).c_str());
        Reply r = srv::ev_add(cn[ci].c, h, type, val); MTag *m = live(h.index);
        bool ok = m && cn[ci].reg && (!m->virt || m->queue);
        if (ok && m->queue) ok = h.byte == 0 && type == EVENT_WRITE && h.size == m->data.size();
        if (ok) ok = inside(m->data.size(), h.byte, h.size);
        bool cust = h.type & DAX_CUSTOM, b = h.type == DAX_BOOL, f = h.type == DAX_REAL || h.type == DAX_LREAL;
        if (ok && !m->queue) switch (type) { case EVENT_WRITE: case EVENT_CHANGE: case EVENT_DELETED: break; case EVENT_SET: case EVENT_RESET: ok = b; break; case EVENT_EQUAL: ok = !b && !f && !cust; break; case EVENT_GREATER: case EVENT_LESS: case EVENT_DEADBAND: ok = !b && !cust; break; default: ok = false; }
        want(w.c_str(), r, ok); int id = -1;
        if (ok) {
            id = srv::i32(r.data); if (id <= 0) violation("id", "%s: bad event id %d", w.c_str(), id);
            for (auto &e : m->ev) if (e.id == id) violation("id", "%s: event id %d is already in use", w.c_str(), id);
            MEv e{id, ci, h, type, val, 0, {}, {}}; uint32_t es = (uint32_t)tsize(h.type);
            if (type >= EVENT_SET && type <= EVENT_LESS) { e.st.resize(h.count); for (uint32_t k = 0; k < h.count; k++) e.st[k] = cond(e, m->data, k, es) ? 2 : 0; }
            if (type == EVENT_DEADBAND) e.last.assign(m->data.begin() + h.byte, m->data.begin() + h.byte + h.size);
            m->ev.push_back(e);
        }
        expect_events(w.c_str());
        if (ok && opt) ev_opt(ci, h.index, id, opt);
        return id;
    }
    MEv *findev(int i, int id) { MTag *m = live(i); if (m) for (auto &e : m->ev) if (e.id == id) return &e; return nullptr; }
    void ev_del(int ci, int i, int id) {
        begin(); string w = sfmt("conn %d event_del tag %d id %d", ci, i, id); Reply r = srv::ev_del(cn[ci].c, i, id); MEv *e = findev(i, id); bool ok = e && e->conn == ci && cn[ci].reg; want(w.c_str(), r, ok);
        if (ok) { auto &v = t[i].ev; for (size_t k = 0; k < v.size(); k++) if (v[k].id == id) { v.erase(v.begin() + k); break; } }
        expect_events(w.c_str());
    }
    void ev_opt(int ci, int i, int id, uint32_t o) { begin(); string w = sfmt("conn %d event_opt tag %d id %d opt %u", ci, i, id, o); Reply r = srv::ev_opt(cn[ci].c, i, id, o); MEv *e = findev(i, id); bool ok = e && e->conn == ci; want(w.c_str(), r, ok); if (ok) e->opt = o; expect_events(w.c_str()); }
    // ---------------- mappings
    int map_add(int ci, H s, H d) {
        begin(); string w = sfmt("conn %d map_add %d.%u.%u n%u -> %d.%u.%u n%u", ci, s.index, s.byte, s.bit, s.count, d.index, d.byte, d.bit, d.count); Reply r = srv::map_add(cn[ci].c, s, d);
        MTag *a = live(s.index), *b = live(d.index); bool sb = s.type == DAX_BOOL, db = d.type == DAX_BOOL;
        bool ok = a && b && !a->virt && !b->virt && !(b->attr & TAG_ATTR_READONLY) && inside(a->data.size(), s.byte, s.size) && inside(b->data.size(), d.byte, d.size) && (sb ? s.count : s.size * 8) <= (db ? d.count : d.size * 8);   // what the source holds fits in the destination
        if (ok && !sb && db && d.bit) ok = false;
        if (ok && sb && s.size > d.size && r.err) ok = false;               // refusing by size class is fine too
        if (ok && !sb && db && d.count % 8 && r.err) ok = false;
        want(w.c_str(), r, ok); int id = -1;
        if (ok) {
            id = srv::i32(r.data); bool dup = false;
            for (auto &p : a->maps) { bool same = !memcmp(&p.s.index, &s.index, 4) && p.s.byte == s.byte && p.s.bit == s.bit && p.s.count == s.count && p.s.size == s.size && p.s.type == s.type && p.d.index == d.index && p.d.byte == d.byte && p.d.bit == d.bit && p.d.count == d.count && p.d.size == d.size && p.d.type == d.type;
                if (same) { dup = true; if (p.id != id) violation("id", "%s: a duplicate mapping got id %d, the existing one is %d", w.c_str(), id, p.id); } else if (p.id == id) violation("id", "%s: mapping id %d is already in use", w.c_str(), id); }
            if (!dup) a->maps.push_back({id, s, d});
        }
        expect_events(w.c_str()); return id;
    }
    void map_del(int ci, int i, int id) { begin(); string w = sfmt("conn %d map_del tag %d id %d", ci, i, id); Reply r = srv::map_del(cn[ci].c, i, id); MTag *m = live(i); int at = -1; if (m) for (size_t k = 0; k < m->maps.size(); k++) if (m->maps[k].id == id) at = (int)k; 
        if (at >= 0 && r.err && !live(m->maps[at].d.index)) { m->maps.erase(m->maps.begin() + at); S->checks++; } // already dropped with its destination
        else { want(w.c_str(), r, at >= 0); if (at >= 0) m->maps.erase(m->maps.begin() + at); }
        expect_events(w.c_str()); }
    void map_check(int ci, int i, int id) {       // query
        begin(); string w = sfmt("conn %d map_get tag %d id %d", ci, i, id); Reply r = srv::map_get(cn[ci].c, i, id); MTag *m = live(i); MMap *p = nullptr; if (m) for (auto &x : m->maps) if (x.id == id) p = &x;
        if (p && r.err && !live(p->d.index)) { S->checks++; expect_events(w.c_str()); return; }
        want(w.c_str(), r, p != nullptr);
        if (p) { srv::B b; auto hb = [&](const H &h) { b.u32(h.index).u32(h.byte).u8(h.bit).u32(h.count).u32(h.size).u32(h.type); }; hb(p->s); hb(p->d); if (r.data.size() < b.b.size() || !std::equal(b.b.begin(), b.b.end(), r.data.begin())) violation("value", "%s: the mapping is reported as %s, it is %s", w.c_str(), srv::hex(r.data).c_str(), srv::hex(b.b).c_str()); }
        expect_events(w.c_str());
    }
    // ---------------- groups
    int grp_add(int ci, const std::vector<H> &h) {
        begin(); string w = sfmt("conn %d group_add of %zu members", ci, h.size()); Reply r = srv::grp_add(cn[ci].c, h); size_t tot = 0; for (auto &x : h) tot += x.size; bool ok = cn[ci].reg && tot <= 4084 && h.size() <= 150; want(w.c_str(), r, ok); int id = -1;
        if (ok) { id = srv::i32(r.data); if (id < 0 || cn[ci].grp[id].used) violation("id", "%s: bad or already used group id %d", w.c_str(), id); cn[ci].grp[id] = Grp{true, h}; }
        expect_events(w.c_str()); return id;
    }
    bool has_grp(int ci, int g) { auto it = cn[ci].grp.find(g); return it != cn[ci].grp.end() && it->second.used && cn[ci].reg; }
    void grp_del(int ci, int g) { begin(); string w = sfmt("conn %d group_del %d", ci, g); Reply r = srv::grp_del(cn[ci].c, g); bool ok = has_grp(ci, g); want(w.c_str(), r, ok); if (ok) cn[ci].grp[g] = Grp(); expect_events(w.c_str()); }
    void grp_read(int ci, int g) {
        begin(); string w = sfmt("conn %d group_read %d", ci, g); Reply r = srv::grp_read(cn[ci].c, g); bool ok = has_grp(ci, g); Bytes x;
        if (ok) for (auto &h : cn[ci].grp[g].m) { MTag *m = live(h.index); if (!m) { ok = false; break; }
            if (m->queue) { if (h.byte || h.size != m->data.size() || m->q.empty()) { ok = false; break; } x.insert(x.end(), m->q.front().begin(), m->q.front().end()); m->q.pop_front(); continue; }
            if (!inside(m->data.size(), h.byte, h.size)) { ok = false; break; } Bytes v = visible(*m); x.insert(x.end(), v.begin() + h.byte, v.begin() + h.byte + h.size); }
        want(w.c_str(), r, ok); if (ok && r.data != x) violation("value", "%s: got %s, expected %s", w.c_str(), srv::hex(r.data).c_str(), srv::hex(x).c_str());
        expect_events(w.c_str());
    }
    void grp_write(int ci, int g, const Bytes &d) {
        begin(); string w = sfmt("conn %d group_write %d %s", ci, g, srv::hex(d).c_str()); Reply r = srv::grp_write(cn[ci].c, g, d); bool ok = has_grp(ci, g); size_t o = 0;
        if (ok) { size_t tot = 0; for (auto &h : cn[ci].grp[g].m) tot += h.size; if (tot > d.size()) ok = false; }
        if (ok) for (auto &h : cn[ci].grp[g].m) { Bytes p(d.begin() + o, d.begin() + o + h.size); o += h.size; Bytes mk; MTag *g2 = live(h.index); bool bits = h.type == DAX_BOOL && g2 && !g2->queue; if (bits) { mk.assign(h.size, 0); for (uint32_t k = 0; k < h.count; k++) mk[(h.bit + k) / 8] |= (uint8_t)(1 << (h.bit + k) % 8); } if (!apply_write(ci, h.index, h.byte, p, bits ? &mk : nullptr)) { ok = false; break; } if (!t[h.index].queue) mapcopy(t[h.index], h.byte, h.size); }
        want(w.c_str(), r, ok); expect_events(w.c_str());
    }
    // ---------------- atomic operations
    template <class T> static void arith(uint8_t *p, const uint8_t *d, bool inc) { T a, b; memcpy(&a, p, sizeof a); memcpy(&b, d, sizeof b); if constexpr (std::is_integral<T>::value) { using U = typename std::make_unsigned<T>::type; a = (T)(inc ? (U)((U)a + (U)b) : (U)((U)a - (U)b)); } else a = inc ? a + b : a - b; memcpy(p, &a, sizeof a); }
    bool model_atomic(int ci, H h, int op, const Bytes &d, Bytes &out, Bytes &mask) {
        MTag *m = live(h.index); if (!m || (h.type & DAX_CUSTOM) || (h.type & DAX_QUEUE) || !btype(h.type) || m->virt || m->special || !may_write(ci, *m, h.byte, h.size)) return false;
        if (op < ATOMIC_OP_INC || op > ATOMIC_OP_XNOR) return false;
        uint32_t n = h.type == DAX_BOOL ? (h.bit + h.count + 7) / 8 : (uint32_t)tsize(h.type) * h.count; if (h.size != n || d.size() != n || h.count == 0) return false;
        if (!inside(m->data.size(), h.byte, h.size)) return false;
        bool f = h.type == DAX_REAL || h.type == DAX_LREAL; out.assign(m->data.begin() + h.byte, m->data.begin() + h.byte + n); mask.assign(n, 0xff);
        if (op <= ATOMIC_OP_DEC) {
            if (h.type == DAX_BOOL || h.count != 1) return false; bool inc = op == ATOMIC_OP_INC; uint8_t *p = out.data(); const uint8_t *q = d.data();
            switch (h.type) { case DAX_BYTE: case DAX_SINT: case DAX_CHAR: arith<int8_t>(p, q, inc); break; case DAX_WORD: case DAX_UINT: case DAX_INT: arith<int16_t>(p, q, inc); break; case DAX_DWORD: case DAX_UDINT: case DAX_DINT: arith<int32_t>(p, q, inc); break; case DAX_REAL: arith<float>(p, q, inc); break; case DAX_LREAL: arith<double>(p, q, inc); break; default: arith<int64_t>(p, q, inc); }
            return true;
        }
        if (f) return false;
        auto lop = [&](int a, int b) -> int { switch (op) { case ATOMIC_OP_NOT: return !a; case ATOMIC_OP_OR: return a | b; case ATOMIC_OP_AND: return a & b; case ATOMIC_OP_NOR: return !(a | b); case ATOMIC_OP_NAND: return !(a & b); case ATOMIC_OP_XOR: return a ^ b; default: return !(a ^ b); } };
        uint32_t nb = h.type == DAX_BOOL ? h.count : n * 8, b0 = h.type == DAX_BOOL ? h.bit : 0; if (h.type == DAX_BOOL) mask.assign(n, 0);
        for (uint32_t k = 0; k < nb; k++) { uint32_t b = b0 + k; int v = lop(bitat(out, b), bitat(d, k)) & 1; out[b / 8] = (uint8_t)((out[b / 8] & ~(1 << b % 8)) | v << b % 8); mask[b / 8] |= (uint8_t)(1 << b % 8); }
        return true;
    }
    void atomic(int ci, H h, int op, const Bytes &d) {
        begin(); string w = sfmt("conn %d atomic op %d tag %d byte %u bit %u count %u type 0x%x operand %s", ci, op, h.index, h.byte, h.bit, h.count, h.type, srv::hex(d).c_str());
        Reply r = srv::atomic(cn[ci].c, h, op, d); Bytes o, mk; bool ok = model_atomic(ci, h, op, d, o, mk); want(w.c_str(), r, ok);
        if (ok) { store(t[h.index], h.byte, o, &mk); mapcopy(t[h.index], h.byte, h.size); }
        expect_events(w.c_str());
    }
    // ---------------- overrides
    void ov_add(int ci, int i, uint32_t off, const Bytes &d, const Bytes &m) {
        begin(); string w = sfmt("conn %d override_add tag %d offset %u data %s mask %s", ci, i, off, srv::hex(d).c_str(), srv::hex(m).c_str()); Reply r = srv::ov_add(cn[ci].c, i, off, d, m); MTag *x = live(i); bool ok = x && !x->virt && inside(x->data.size(), off, d.size()) && !d.empty(); want(w.c_str(), r, ok);
        if (ok) { if (!x->ov) { x->ov = true; x->od.assign(x->data.size(), 0); x->om.assign(x->data.size(), 0); nov++; sysset(7, le32(nov)); } for (size_t k = 0; k < d.size(); k++) { x->od[off + k] = (uint8_t)((x->od[off + k] & ~m[k]) | (d[k] & m[k])); x->om[off + k] |= m[k]; } }
        expect_events(w.c_str());
    }
    void ov_del(int ci, int i, uint32_t off, const Bytes &m) {
        begin(); string w = sfmt("conn %d override_del tag %d offset %u mask %s", ci, i, off, srv::hex(m).c_str()); Reply r = srv::ov_del(cn[ci].c, i, off, m); MTag *x = live(i); bool ok = x && x->ov && inside(x->data.size(), off, m.size()); want(w.c_str(), r, ok);
        if (ok) { bool any = false; for (size_t k = 0; k < m.size(); k++) { x->om[off + k] &= (uint8_t)~m[k]; x->od[off + k] &= (uint8_t)~m[k]; } for (auto b : x->om) if (b) any = true; if (!any) { x->ov = false; nov--; sysset(7, le32(nov)); if (x->ovs) { x->ovs = false; novs--; sysset(8, le32(novs)); } x->od.clear(); x->om.clear(); } }
        expect_events(w.c_str());
    }
    void ov_set(int ci, int i, bool on) {
        begin(); string w = sfmt("conn %d override_%s tag %d", ci, on ? "set" : "clr", i); Reply r = srv::ov_set(cn[ci].c, i, on); MTag *x = live(i); bool ok = x && (!on || x->ov);
        want(w.c_str(), r, ok); if (ok && x->ovs != on) { x->ovs = on; novs += on ? 1 : -1; sysset(8, le32(novs)); }
        expect_events(w.c_str());
    }
    void ov_get(int ci, int i, uint32_t off, uint32_t size) {
        begin(); string w = sfmt("conn %d override_get tag %d offset %u size %u", ci, i, off, size); Reply r = srv::ov_get(cn[ci].c, i, off, size); MTag *x = live(i); bool ok = x && x->ov && inside(x->data.size(), off, size);
        if (x && !x->ov && !x->virt && inside(x->data.size(), off, size)) { // nothing installed: an error or an all-zero mask are both fair answers
            if (!r.err) for (size_t k = size; k < r.data.size(); k++) if (r.data[k]) violation("value", "%s: reports an override that does not exist", w.c_str());
        } else { want(w.c_str(), r, ok); if (ok) { Bytes e(x->data.begin() + off, x->data.begin() + off + size); e.insert(e.end(), x->om.begin() + off, x->om.begin() + off + size); if (r.data != e) violation("value", "%s: got %s, expected %s (value then mask)", w.c_str(), srv::hex(r.data).c_str(), srv::hex(e).c_str()); } }
        expect_events(w.c_str());
    }
    // ---------------- compound types
    size_t layout(const std::vector<Member> &m) const { uint64_t pos = 0; for (auto &x : m) { if (x.type == DAX_BOOL) pos += x.count; else { pos = (pos + 7) / 8 * 8; pos += 8ull * tsize(x.type) * x.count; } } return (size_t)((pos + 7) / 8); }
    string tname(uint32_t ty) const { static const std::map<uint32_t, const char *> N = {{DAX_BOOL, "BOOL"}, {DAX_BYTE, "BYTE"}, {DAX_SINT, "SINT"}, {DAX_CHAR, "CHAR"}, {DAX_WORD, "WORD"}, {DAX_INT, "INT"}, {DAX_UINT, "UINT"}, {DAX_DWORD, "DWORD"}, {DAX_DINT, "DINT"}, {DAX_UDINT, "UDINT"}, {DAX_TIME, "TIME"}, {DAX_REAL, "REAL"}, {DAX_LWORD, "LWORD"}, {DAX_LINT, "LINT"}, {DAX_ULINT, "ULINT"}, {DAX_LREAL, "LREAL"}}; if (ty & DAX_CUSTOM) return cdts[ty & ~DAX_CUSTOM].name; return N.at(ty); }
    uint32_t cdt_create(int ci, const string &name, const std::vector<Member> &m) {
        string d = name; for (auto &x : m) d += sfmt(":%s,%s,%u", x.name.c_str(), tname(x.type).c_str(), x.count);
        begin(); string w = sfmt("conn %d cdt_create %s", ci, d.c_str()); Reply r = srv::cdt_create(cn[ci].c, d); bool ok = true; uint32_t ex = 0;
        for (size_t i = 0; i < cdts.size(); i++) if (!strcasecmp(cdts[i].name.c_str(), name.c_str())) { ex = (uint32_t)i | DAX_CUSTOM; ok = cdts[i].def == d; }
        want(w.c_str(), r, ok); uint32_t ty = 0;
        if (ok) { ty = (uint32_t)srv::i32(r.data); if (ex) { if (ty != ex) violation("type", "%s: returned type 0x%x, it exists as 0x%x", w.c_str(), ty, ex); } else { if (ty != (cdts.size() | DAX_CUSTOM)) violation("type", "%s: returned type 0x%x", w.c_str(), ty); cdts.push_back({name, d, m, layout(m)}); } }
        expect_events(w.c_str()); return ty;
    }
    void cdt_get(int ci, size_t i, bool byname) { begin(); string w = sfmt("conn %d cdt_get %s by %s", ci, cdts[i].name.c_str(), byname ? "name" : "type"); Reply r = byname ? srv::cdt_get(cn[ci].c, cdts[i].name) : srv::cdt_get(cn[ci].c, (uint32_t)i | DAX_CUSTOM); want(w.c_str(), r, true);
        if ((uint32_t)srv::i32(r.data) != ((uint32_t)i | DAX_CUSTOM)) violation("type", "%s: returned type 0x%x", w.c_str(), srv::i32(r.data)); string d((const char *)r.data.data() + 4, r.data.size() > 4 ? strnlen((const char *)r.data.data() + 4, r.data.size() - 4) : 0); if (d != cdts[i].def) violation("type", "%s: returned '%s', defined as '%s'", w.c_str(), d.c_str(), cdts[i].def.c_str()); expect_events(w.c_str()); }
    // ---------------- modules
    void do_register(int ci, const string &name, bool tag = true) {
        begin(); string w = sfmt("conn %d register '%s'", ci, name.c_str()); if (cn[ci].reg) model_unreg(ci);
        Reply r = srv::reg(cn[ci].c, name); want(w.c_str(), r, true); cn[ci].reg = true; cn[ci].name = name; cn[ci].tagidx = -1;
        if (tag) {
            int i = next; Reply g = srv::tag_get(cn[ci].c, i); if (g.err) violation("module", "%s: the module tag was not created (index %d, error %d)", w.c_str(), i, g.err);
            string nm((const char *)g.data.data() + 14, strnlen((const char *)g.data.data() + 14, g.data.size() > 14 ? g.data.size() - 14 : 0)); string pre = ("_m" + name).substr(0, DAX_TAGNAME_SIZE);
            if (nm.compare(0, std::min<size_t>(pre.size(), DAX_TAGNAME_SIZE - 5), pre, 0, std::min<size_t>(pre.size(), DAX_TAGNAME_SIZE - 5))) violation("module", "%s: the module tag is called '%s'", w.c_str(), nm.c_str());
            if (byname(nm)) violation("module", "%s: the module tag name '%s' is already in use", w.c_str(), nm.c_str());
            if (!byname(pre) && nm != pre) violation("module", "%s: the module tag is called '%s' although '%s' is free", w.c_str(), nm.c_str(), pre.c_str());
            model_add(nm, DAX_CUSTOM | 0, 1, 0, -1); MTag &m = t[i]; m.special = true; m.sys = true; m.owner = -1; cn[ci].tagidx = i;
            Bytes d(12); int64_t now = *rt::now_ms; memcpy(&d[0], &now, 8); int fd = rt::server_fd_of(cn[ci].c); memcpy(&d[8], &fd, 4); store(m, 0, Bytes(d.begin(), d.begin() + 8), nullptr); store(m, 8, Bytes(d.begin() + 8, d.end()), nullptr);
            Bytes ln(DAX_TAGNAME_SIZE, 0); memcpy(&ln[0], nm.c_str(), nm.size()); sysset(6, ln);
        }
        expect_events(w.c_str());
    }
    void model_unreg(int ci) {
        cn[ci].reg = false; cn[ci].grp.clear();
        for (auto &x : t) { auto &v = x.second.ev; for (size_t k = 0; k < v.size();) if (v[k].conn == ci) v.erase(v.begin() + k); else k++; }
        std::vector<int> del; for (auto &x : t) if (x.second.live && (x.second.attr & TAG_ATTR_OWNED) && x.second.owner == ci) del.push_back(x.first);
        for (int i : del) model_del(i);
        if (cn[ci].tagidx >= 0) { model_del(cn[ci].tagidx); cn[ci].tagidx = -1; }
    }
    void disconnect(int ci) { begin(); string w = sfmt("conn %d disconnects", ci); srv::drain(cn[ci].c); srv::close(cn[ci].c); cn[ci].open = false; model_unreg(ci); expect_events(w.c_str()); }
    // ---------------- full comparison
    int obs = 0;                                  // observing connection
    void check_tag(int i) {
        int c = cn[obs].c; auto it = t.find(i); bool ex = it != t.end() && it->second.live; Reply g = srv::tag_get(c, i);
        if (!ex) { if (!g.err) violation("directory", "index %d should not exist but is reported as %s", i, srv::hex(g.data).c_str()); if (it != t.end()) { Reply rr = srv::tread(c, i, 0, 1); if (!rr.err) violation("directory", "deleted tag %d can still be read", i); if (!byname(it->second.name)) { Reply n = srv::tag_get(c, it->second.name); if (!n.err) violation("directory", "deleted tag '%s' is still found by name", it->second.name.c_str()); } } S->checks++; return; }
        MTag &m = it->second;
        if (g.err) violation("directory", "tag %d (%s) is not found by index (error %d)", i, m.name.c_str(), g.err);
        auto chk = [&](const Reply &r, const char *how) {
            if (r.data.size() < 15) violation("directory", "short definition of tag %d by %s", i, how);
            uint32_t id = (uint32_t)srv::i32(r.data), ty = (uint32_t)srv::i32(r.data, 4), ct = (uint32_t)srv::i32(r.data, 8); uint16_t at; memcpy(&at, &r.data[12], 2); string nm((const char *)&r.data[14], strnlen((const char *)&r.data[14], r.data.size() - 14));
            if ((int)id != i || ty != m.type || ct != m.count || nm != m.name) violation("directory", "tag %d '%s' type 0x%x count %u is reported by %s as %d '%s' 0x%x %u", i, m.name.c_str(), m.type, m.count, how, (int)id, nm.c_str(), ty, ct);
            if (!m.sys) { uint32_t x = m.attr & (TAG_ATTR_READONLY | TAG_ATTR_OWNED); if (m.ov) x |= TAG_ATTR_OVERRIDE; if (m.ovs) x |= TAG_ATTR_OVR_SET; if (m.virt) x |= TAG_ATTR_VIRTUAL; uint32_t km = TAG_ATTR_READONLY | TAG_ATTR_OWNED | TAG_ATTR_OVERRIDE | TAG_ATTR_OVR_SET | TAG_ATTR_VIRTUAL;
                bool sure = true; for (auto &p : m.maps) if (!live(p.d.index)) sure = false; if (sure) { km |= TAG_ATTR_MAPPING; if (!m.maps.empty()) x |= TAG_ATTR_MAPPING; } km |= TAG_ATTR_EVENT; if (!m.ev.empty()) x |= TAG_ATTR_EVENT;
                if ((at & km) != x) violation("attributes", "tag %d '%s' has attributes 0x%x, expected 0x%x (of 0x%x) by %s", i, m.name.c_str(), at & km, x, km, how); }
            S->checks++;
        };
        chk(g, "index"); Reply n = srv::tag_get(c, m.name); if (n.err) violation("directory", "tag %d '%s' is not found by name (error %d)", i, m.name.c_str(), n.err); chk(n, "name");
        check_data(i);
    }
    void check_data(int i) {
        MTag &m = t[i]; if (!m.live || m.virt) return; int c = cn[obs].c;
        for (size_t o = 0; o < m.data.size(); o += 4088) { uint32_t n = (uint32_t)std::min<size_t>(4088, m.data.size() - o); Reply r = srv::tread(c, i, (uint32_t)o, n);
            if (r.err) violation("value", "tag %d '%s' cannot be read (offset %zu size %u, error %d)", i, m.name.c_str(), o, n, r.err); Bytes v = visible(m); Bytes x(v.begin() + o, v.begin() + o + n);
            if (!m.care.empty()) for (size_t k = 0; k < n && k < r.data.size(); k++) if (!m.care[o + k]) r.data[k] = x[k];
            if (r.data != x) violation("value", "tag %d '%s' reads %s, expected %s", i, m.name.c_str(), srv::hex(r.data).c_str(), srv::hex(x).c_str()); S->checks++; }
    }
    void flush() { Bytes p(4000, 0); Bytes f = srv::frame(MSG_TAG_READ, srv::B().u32(0x7fffffff).v(p)); rt::net_send(cn[obs].c, f.data(), f.size()); srv::idle(); srv::drain(cn[obs].c); }   // overwrite the receive buffer with constant bytes
    void sweep(bool full = true) {
        srv::events.clear(); for (auto &x : t) { if (!sweep_sys && x.second.sys) continue; if (full) check_tag(x.first); else check_data(x.first); }
        if (full) check_tag(next);
        flush(); if (!srv::events.empty()) violation("event", "a notification was sent without any write (tag %d event %d)", srv::events[0].idx, srv::events[0].id);
    }
    // ---------------- start
    void boot(int nconn, std::vector<string> names = {}) {
        srv::load(); srv::boot(); init_sys(); for (int k = 0; k < nconn; k++) { connect(); if (k < (int)names.size() && !names[k].empty()) do_register(k, names[k]); }
    }
    void init_sys() {
        auto def = [&](const char *n, std::vector<Member> m) { string d = n; for (auto &x : m) d += sfmt(":%s,%s,%u", x.name.c_str(), tname(x.type).c_str(), x.count); cdts.push_back({n, d, m, layout(m)}); };
        def("_module", {{"starttime", DAX_TIME, 1}, {"id", DAX_DINT, 1}, {"running", DAX_BOOL, 1}, {"faulted", DAX_BOOL, 1}, {"status", DAX_CHAR, 64}, {"stop", DAX_BOOL, 1}, {"run", DAX_BOOL, 1}, {"reload", DAX_BOOL, 1}, {"kill", DAX_BOOL, 1}});
        def("_tag_desc", {{"index", DAX_DINT, 1}, {"type", DAX_UDINT, 1}, {"count", DAX_UDINT, 1}, {"attributes", DAX_UINT, 1}, {"name", DAX_CHAR, DAX_TAGNAME_SIZE + 1}});
        struct { const char *n; uint32_t ty, ct; } L[] = {{"_tagcount", DAX_DINT, 1}, {"_lastindex", DAX_DINT, 1}, {"_tag_added", DAX_CUSTOM | 1, 1}, {"_tag_deleted", DAX_CUSTOM | 1, 1}, {"_dbsize", DAX_DINT, 1}, {"_starttime", DAX_TIME, 1}, {"_lastmodule", DAX_CHAR, DAX_TAGNAME_SIZE + 1}, {"_overrides_installed", DAX_DINT, 1}, {"_overrides_set", DAX_DINT, 1}, {"_time", DAX_TIME, 1}, {"_my_tagname", DAX_CHAR, DAX_TAGNAME_SIZE + 1}};
        for (auto &l : L) { int i = model_add(l.n, l.ty, l.ct, 0, -1); t[i].sys = true; t[i].attr = TAG_ATTR_READONLY; }
        t[9].virt = t[10].virt = true; t[4].care.assign(4, 0);              // _dbsize: an implementation detail
        for (int i = 2; i <= 3; i++) { t[i].care.assign(47, 1); t[i].care[12] = t[i].care[13] = 0; }
        int64_t now = *rt::now_ms; Bytes d(8); memcpy(&d[0], &now, 8); t[5].data = d; exp.clear();
    }
};
}
