// C18: values survive conversion to text and back; out-of-range integer text is clamped.
// Exhaustive enumeration of calls: every value of the types of up to 16 bits, complete boundary neighbourhoods of the wider ones
// (thorough: every 32 bit float), crossed with array indexes, backgrounds, masks and buffer sizes.
#include "cscn.h"
#include <math.h>
#include <float.h>
typedef __int128 i128;
struct TI { const char *n; uint32_t t; int bits; bool sg; };
static const TI TIS[] = {{"BYTE", DAX_BYTE, 8, false}, {"SINT", DAX_SINT, 8, true}, {"CHAR", DAX_CHAR, 8, true}, {"WORD", DAX_WORD, 16, false}, {"INT", DAX_INT, 16, true}, {"UINT", DAX_UINT, 16, false}, {"DWORD", DAX_DWORD, 32, false}, {"DINT", DAX_DINT, 32, true}, {"UDINT", DAX_UDINT, 32, false}, {"LWORD", DAX_LWORD, 64, false}, {"LINT", DAX_LINT, 64, true}, {"ULINT", DAX_ULINT, 64, false}, {"TIME", DAX_TIME, 64, true}};
static i128 tmin(const TI &t) { return t.sg ? -((i128)1 << (t.bits - 1)) : 0; }
static i128 tmax(const TI &t) { return t.sg ? ((i128)1 << (t.bits - 1)) - 1 : ((i128)1 << t.bits) - 1; }
static string dec(i128 v) { if (v == 0) return "0"; bool n = v < 0; string s; unsigned __int128 u = n ? -(unsigned __int128)v : (unsigned __int128)v; while (u) { s.insert(s.begin(), (char)('0' + (int)(u % 10))); u /= 10; } return n ? "-" + s : s; }
static std::vector<i128> neighbourhoods(int d) { std::set<i128> s; for (int k = 0; k <= 70; k++) for (int e = -d; e <= d; e++) { s.insert(((i128)1 << k) + e); s.insert(-((i128)1 << k) + e); } i128 p = 1; for (int k = 0; k < 24; k++, p *= 10) for (int e = -2; e <= 2; e++) { s.insert(p + e); s.insert(-p + e); } for (int e = 0; e <= 300; e++) { s.insert(e); s.insert(-e); } return {s.begin(), s.end()}; }
static dax_state *nods = nullptr;
// one array with guard contents: conversion of element i only changes element i
struct Arr { uint8_t *b, *m; size_t n; int es; };
static void put(uint8_t *p, int es, i128 v) { memcpy(p, &v, (size_t)es); }
static void round1(uint32_t t, const char *tn, int es, const uint8_t *val, int idx, int n, uint8_t bg, bool withmask, CBuf &src, CBuf &txt, CBuf &dst, CBuf &msk) {
    memset(src.p, bg, src.n); memcpy(src.p + es * idx, val, (size_t)es); memset(txt.p, 0x55, txt.n); memset(dst.p, (uint8_t)~bg, dst.n); memset(msk.p, 0, msk.n);
    int r = api::dax_val_to_string((char *)txt.p, (int)txt.n, t, src.p, idx); S->checks++;
    if (r) violation("refused", "dax_val_to_string of a %s fails with %d", tn, r);
    if (!memchr(txt.p, 0, txt.n)) violation("unterminated", "the text of a %s is not terminated within its buffer of %zu bytes", tn, txt.n);
    int r2 = api::dax_string_to_val((char *)txt.p, t, dst.p, withmask ? msk.p : nullptr, idx);
    if (r2) violation("refused", "converting '%s' back to a %s returns %d", (char *)txt.p, tn, r2);
    if (memcmp(dst.p + es * idx, val, (size_t)es)) { string h, g; for (int i = es - 1; i >= 0; i--) { h += sfmt("%02x", val[i]); g += sfmt("%02x", dst.p[es * idx + i]); } violation("round-trip", "%s value 0x%s converts to '%s' and back to 0x%s (element %d)", tn, h.c_str(), (char *)txt.p, g.c_str(), idx); }
    for (int i = 0; i < es * n; i++) { bool in = i >= es * idx && i < es * (idx + 1); if (!in && dst.p[i] != (uint8_t)~bg) violation("neighbour", "converting to element %d of a %s array changes byte %d", idx, tn, i); if (withmask && msk.p[i] != (in ? 0xff : 0)) violation("mask", "converting to element %d of a %s array makes mask byte %d 0x%02x", idx, tn, i, msk.p[i]); }
}
static void ints(const TI &t, int idx, uint8_t bg, bool mask, const std::vector<i128> &vals) {
    int n = 5, es = t.bits / 8; cli::call(1, [&]() { CBuf s((size_t)(es * n)), x(40), d((size_t)(es * n)), m((size_t)(es * n)); int k = 0; for (i128 v : vals) if (v >= tmin(t) && v <= tmax(t)) { uint8_t b[8]; put(b, es, v); round1(t.t, t.n, es, b, idx, n, bg, mask, s, x, d, m); S->transitions++; if (!(++k & 1023)) pet(); } });
}
static void clamp(const TI &t, int idx, bool mask, const std::vector<i128> &vals) {
    int n = 3, es = t.bits / 8; cli::call(1, [&]() { CBuf d((size_t)(es * n)), m((size_t)(es * n)); for (i128 v : vals) for (int f = 0; f < 4; f++) {
        if (t.t == DAX_CHAR && v >= 0 && v <= 9 && f == 0) continue;     // a single character is that character
        string s = dec(v); if (f == 1) s = " " + s; if (f == 2) { if (v < 0) continue; s = "+" + s; } if (f == 3) { unsigned __int128 u = v < 0 ? -(unsigned __int128)v : (unsigned __int128)v; s = ""; do s.insert(s.begin(), "0123456789abcdef"[(int)(u & 15)]), u >>= 4; while (u); s = (v < 0 ? "-0x" : "0x") + s; }
        CBuf z(s.size() + 1); memcpy(z.p, s.c_str(), s.size() + 1);
        memset(d.p, 0x5a, d.n); memset(m.p, 0, m.n); int r = api::dax_string_to_val((char *)z.p, t.t, d.p, mask ? m.p : nullptr, idx); S->checks++; S->transitions++;
        int wr = v < tmin(t) ? ERR_UNDERFLOW : v > tmax(t) ? ERR_OVERFLOW : 0; i128 w = v < tmin(t) ? tmin(t) : v > tmax(t) ? tmax(t) : v; uint8_t b[8]; put(b, es, w);
        if (r != wr) violation("indication", "'%s' as a %s returns %d, expected %d", s.c_str(), t.n, r, wr);
        if (memcmp(d.p + es * idx, b, (size_t)es)) { string g; for (int i = es - 1; i >= 0; i--) g += sfmt("%02x", d.p[es * idx + i]); violation("clamp", "'%s' as a %s gives 0x%s, expected %s", s.c_str(), t.n, g.c_str(), dec(w).c_str()); }
        for (int i = 0; i < es * n; i++) { bool in = i >= es * idx && i < es * (idx + 1); if (!in && d.p[i] != 0x5a) violation("neighbour", "'%s' to element %d of a %s array changes byte %d", s.c_str(), idx, t.n, i); if (mask && m.p[i] != (in ? 0xff : 0)) violation("mask", "'%s' to element %d of a %s array makes mask byte %d 0x%02x", s.c_str(), idx, t.n, i, m.p[i]); }
        outcome((uint64_t)(wr * 1000 + (int)t.t));
    } pet(); });
}
static void bufsizes(uint32_t t, const char *tn, int es, const std::vector<Bytes> &vals) {
    cli::call(1, [&]() { for (auto &v : vals) { CBuf s(v), big(64); api::dax_val_to_string((char *)big.p, 64, t, s.p, 0); string full((char *)big.p, strnlen((char *)big.p, 64));
        for (size_t n = 1; n <= full.size() + 2; n++) { CBuf b(n); memset(b.p, 0x55, n); S->transitions++; S->checks++; int r = api::dax_val_to_string((char *)b.p, (int)n, t, s.p, 0); if (!memchr(b.p, 0, n)) violation("unterminated", "%s in a buffer of %zu bytes: the text '%s' is not terminated", tn, n, full.c_str()); if (n > full.size() && (r || full != (char *)b.p)) violation("truncated", "%s in a buffer of %zu bytes gives '%s', expected '%s'", tn, n, (char *)b.p, full.c_str()); }
        CBuf g(8); memset(g.p, 0x55, 8); api::dax_val_to_string((char *)g.p, 0, t, s.p, 0); for (int i = 0; i < 8; i++) if (g.p[i] != 0x55) violation("overrun", "%s with a buffer size of 0 writes to the buffer", tn); } pet(); });
}
static void bools() { // every bit of arrays, every background, chained conversions
    cli::call(1, [&]() { for (int n : {1, 3, 8, 9, 16, 17, 40, 130}) { size_t nb = (size_t)(n + 7) / 8; CBuf s(nb), d(nb), m(nb), x(2); for (int bg = 0; bg < 256; bg += n > 17 ? 85 : 1) for (int i = 0; i < n; i++) for (int v = 0; v < 2; v++) for (int mk = 0; mk < 2; mk++) {
        memset(s.p, bg, nb); if (v) s.p[i / 8] |= (uint8_t)(1 << (i % 8)); else s.p[i / 8] &= (uint8_t)~(1 << (i % 8)); S->transitions++; S->checks++;
        api::dax_val_to_string((char *)x.p, 2, DAX_BOOL, s.p, i); if (strcmp((char *)x.p, v ? "1" : "0")) violation("round-trip", "element %d of a BOOL array is %d but its text is '%s'", i, v, (char *)x.p);
        for (const char *tx : {v ? "1" : "0", v ? "7" : "00", v ? "-1" : "0x0", v ? "256" : " 0"}) { CBuf z(strlen(tx) + 1); strcpy((char *)z.p, tx); memset(d.p, bg ^ 0x3c, nb); memset(m.p, mk ? 0x21 : 0, nb); Bytes w = d.get(), wm = m.get(); if (v) w[(size_t)i / 8] |= (uint8_t)(1 << (i % 8)); else w[(size_t)i / 8] &= (uint8_t)~(1 << (i % 8)); wm[(size_t)i / 8] |= (uint8_t)(1 << (i % 8));
            api::dax_string_to_val((char *)z.p, DAX_BOOL, d.p, m.p, i); if (d.get() != w) violation("neighbour", "'%s' to element %d of a BOOL array of %d: wrong bits result", tx, i, n); if (m.get() != wm) violation("mask", "'%s' to element %d of a BOOL array of %d: wrong mask", tx, i, n); api::dax_string_to_val((char *)z.p, DAX_BOOL, d.p, nullptr, i); if (d.get() != w) violation("neighbour", "'%s' without a mask to element %d of a BOOL array of %d: wrong bits result", tx, i, n); } } pet(); } });
}
static std::vector<uint32_t> fman(bool dense) { std::set<uint32_t> s; for (int k = 0; k <= 23; k++) for (int e = -2; e <= 2; e++) s.insert((uint32_t)((1 << k) + e) & 0x7fffff); for (int k = 0; k < 23; k++) for (int j = 0; j < k; j++) { s.insert((1u << k) | (1u << j)); s.insert(~((1u << k) | (1u << j)) & 0x7fffff); } if (dense) for (uint32_t i = 0; i < 0x800000; i += 1543) s.insert(i); return {s.begin(), s.end()}; }
static void reals(int e0, int e1, bool all) { cli::call(1, [&]() { CBuf s(12), x(32), d(12), m(12); auto mm = fman(true); uint32_t cnt = all ? 0x800000 : (uint32_t)mm.size(); for (int e = e0; e < e1; e++) for (int sg = 0; sg < 2; sg++) for (uint32_t i = 0; i < cnt; i++) { uint32_t v = (uint32_t)sg << 31 | (uint32_t)e << 23 | (all ? i : mm[i]); round1(DAX_REAL, "REAL", 4, (uint8_t *)&v, (int)(i % 3), 3, 0xa5, i & 1, s, x, d, m); if (!(i & 4095)) { pet(); S->transitions += 4096; } } }); }
static std::vector<uint64_t> dman() { std::set<uint64_t> s; uint64_t M = (1ull << 52) - 1; for (int k = 0; k <= 52; k++) for (int e = -2; e <= 2; e++) s.insert(((1ull << k) + (uint64_t)e) & M); for (int k = 0; k < 52; k++) for (int j = 0; j < k; j += thorough() ? 1 : 5) { s.insert(1ull << k | 1ull << j); s.insert(~(1ull << k | 1ull << j) & M); } return {s.begin(), s.end()}; }
static void lreals(int e0, int e1) { cli::call(1, [&]() { CBuf s(24), x(40), d(24), m(24); auto mm = dman(); for (int e = e0; e < e1; e++) for (int sg = 0; sg < 2; sg++) { for (size_t i = 0; i < mm.size(); i++) { uint64_t v = (uint64_t)sg << 63 | (uint64_t)e << 52 | mm[i]; round1(DAX_LREAL, "LREAL", 8, (uint8_t *)&v, (int)(i % 3), 3, 0xa5, i & 1, s, x, d, m); } S->transitions += mm.size(); pet(); } }); }
static void times(int part, int parts) { cli::call(1, [&]() { CBuf s(24), x(64), d(24), m(24); uint64_t k = 0; int64_t D = 86400000; auto one = [&](int64_t v) { round1(DAX_TIME, "TIME", 8, (uint8_t *)&v, (int)(k % 3), 3, 0xa5, k & 1, s, x, d, m); S->transitions++; if (!(++k & 1023)) pet(); };
    int64_t lo = -720000, hi = 200000, st = (hi - lo) / parts; for (int64_t dy = lo + st * part; dy < lo + st * (part + 1); dy++) for (int64_t o : {-1, 0, 1, 999, 1000}) one(dy * D + o);
    if (part == 0) { for (int64_t v = -5000; v <= 5000; v++) one(v); for (int64_t sec = 0; sec < 86400; sec++) { one(sec * 1000 + 7); one(-sec * 1000 - 7); } for (int64_t y = 1; y < 290000000; y = y * 2 + 1) for (int64_t f : {1, -1}) for (int64_t o : {-1, 0, 1, 500}) one(f * y * 31556952000ll + o); } }); }
static void text_dates() { // civil dates against an independent calendar
    cli::call(1, [&]() { CBuf d(8); auto days = [](int64_t y, int mo, int da) { y -= mo <= 2; int64_t era = (y >= 0 ? y : y - 399) / 400; int64_t yoe = y - era * 400, doy = (153 * (mo + (mo > 2 ? -3 : 9)) + 2) / 5 + da - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + doe - 719468; };
    int ml[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    for (int y = 1600; y < 2400; y++) for (int mo = 1; mo <= 12; mo++) { int L = ml[mo - 1] + (mo == 2 && ((y % 4 == 0 && y % 100) || y % 400 == 0)); for (int da : {1, 2, 28, L}) for (int ms : {-1, 0, 7, 999}) { int h = (y + mo) % 24, mi = (y * 7 + da) % 60, se = (y + da * 11) % 60; string t = sfmt("%04d-%02d-%02dT%02d:%02d:%02d", y, mo, da, h, mi, se) + (ms >= 0 ? sfmt(".%03d", ms) : string()); CBuf z(t.size() + 1); strcpy((char *)z.p, t.c_str());
        int r = api::dax_string_to_val((char *)z.p, DAX_TIME, d.p, nullptr, 0); int64_t v, w = (days(y, mo, da) * 86400 + h * 3600 + mi * 60 + se) * 1000 + (ms < 0 ? 0 : ms); memcpy(&v, d.p, 8); S->checks++; S->transitions++; if (r || v != w) violation("date", "'%s' converts to %ld (returns %d), expected %ld", t.c_str(), v, r, w);
        CBuf x(40), sv(8); memcpy(sv.p, &w, 8); api::dax_val_to_string((char *)x.p, 40, DAX_TIME, sv.p, 0); if (strncmp((char *)x.p, t.c_str(), 19)) violation("date", "%ld converts to '%s', expected '%s'", w, (char *)x.p, t.c_str()); } pet(); } });
}
static void c18() {
    run_forked("conversions", []() { srv::load(); cli::load(); srv::boot(); cli::call(1, []() { nods = nullptr; });
        Explorer<Nil> x; x.name = "conversions"; x.depth = 1; x.dedupe = false; bool T = thorough();
        static std::vector<i128> full16, nb, cl; for (i128 v = -32768; v < 65536; v++) full16.push_back(v); nb = neighbourhoods(T ? 300 : 40); cl = neighbourhoods(3);
        for (auto &t : TIS) for (int idx : {0, 1, 4}) for (int c = 0; c < 4; c++) x.add(sfmt("%s element %d %s", t.n, idx, c & 1 ? "with mask" : ""), [=](Nil &) { ints(t, idx, c & 2 ? 0xff : 0, c & 1, t.bits <= 16 ? full16 : nb); if (t.bits > 16 && (T || c == 0)) ints(t, idx, 0x5a, c & 1, full16); });
        for (auto &t : TIS) for (int idx : {0, 2}) for (int c = 0; c < 2; c++) x.add(sfmt("text as %s element %d %s", t.n, idx, c ? "with mask" : ""), [=](Nil &) { clamp(t, idx, c, cl); });
        x.add("BOOL", [](Nil &) { bools(); }); x.add("dates", [](Nil &) { text_dates(); });
        for (auto &t : TIS) x.add(sfmt("buffer sizes %s", t.n), [=](Nil &) { std::vector<Bytes> v; for (i128 q : nb) if (q >= tmin(t) && q <= tmax(t)) { Bytes b((size_t)t.bits / 8); put(b.data(), t.bits / 8, q); v.push_back(b); } bufsizes(t.t, t.n, t.bits / 8, v); });
        x.add("buffer sizes REAL", [](Nil &) { std::vector<Bytes> v; for (float f : {0.f, -0.f, 1.f, -1.5f, 0.1f, FLT_MAX, -FLT_MAX, FLT_MIN, 1e-45f, 16777217.f, 3.14159274f, -1.17549421e-38f}) v.push_back(Bytes((uint8_t *)&f, (uint8_t *)&f + 4)); bufsizes(DAX_REAL, "REAL", 4, v); });
        x.add("buffer sizes LREAL", [](Nil &) { std::vector<Bytes> v; for (double f : {0., -0., 1., -1.5, 0.1, DBL_MAX, -DBL_MAX, DBL_MIN, 5e-324, 9007199254740993., 3.141592653589793, -2.2250738585072011e-308}) v.push_back(Bytes((uint8_t *)&f, (uint8_t *)&f + 8)); bufsizes(DAX_LREAL, "LREAL", 8, v); });
        for (int e = 0; e < 255; e += T ? 1 : 8) x.add(sfmt("REAL exponents from %d", e), [=](Nil &) { reals(e, std::min(255, e + (T ? 1 : 8)), T); });
        for (int e = 0; e < 2047; e += 32) x.add(sfmt("LREAL exponents from %d", e), [=](Nil &) { lreals(e, std::min(2047, e + 32)); });
        for (int p = 0; p < 16; p++) x.add(sfmt("TIME part %d", p), [=](Nil &) { times(p, 16); });
        Nil m; x.run(m); });
}
static Reg r18("C18", c18, "every value / text of the enumerated sets is converted by the real library code, each result, indication, mask and every byte around it compared with an independent calculation");
