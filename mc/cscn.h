#pragma once
#include "cli.h"
using namespace ex;
inline bool thorough() { return g_tier == "thorough"; }
inline Bytes b(std::initializer_list<int> l) { Bytes r; for (int x : l) r.push_back((uint8_t)x); return r; }
inline Bytes pat(size_t n, int seed) { Bytes r(n); for (size_t i = 0; i < n; i++) r[i] = (uint8_t)(seed + i * 37 + (i >> 3)); return r; }
struct Reg { Reg(const char *p, void (*f)(), const char *rule); };
struct RegEnt { void (*f)(); string rule; }; std::map<string, RegEnt> &regs();
struct Nil { uint64_t hash() const { return 0; } };
// ---- reference layout of types
struct Mem { string n; uint32_t t; uint32_t c; };
struct Typ { string n; std::vector<Mem> m; uint32_t id = 0; };
struct World { std::map<uint32_t, Typ> T;                      // by type id
    uint64_t size(uint32_t t) const { t &= ~DAX_QUEUE; if (!(t & DAX_CUSTOM)) return t == DAX_BOOL ? 1 : TYPESIZE(t) / 8; uint64_t p = 0; for (auto &m : T.at(t).m) p = mpos(p, m.t) + mbits(m); return p ? (p + 7) / 8 : 1; }
    uint64_t mbits(const Mem &m) const { return m.t == DAX_BOOL ? m.c : size(m.t) * 8 * m.c; }
    static uint64_t mpos(uint64_t p, uint32_t t) { return t == DAX_BOOL ? p : (p + 7) / 8 * 8; }
    string tname(uint32_t t) const { if (t & DAX_CUSTOM) return T.at(t).n; switch (t) { case DAX_BOOL: return "BOOL"; case DAX_BYTE: return "BYTE"; case DAX_SINT: return "SINT"; case DAX_CHAR: return "CHAR"; case DAX_WORD: return "WORD"; case DAX_INT: return "INT"; case DAX_UINT: return "UINT"; case DAX_DWORD: return "DWORD"; case DAX_DINT: return "DINT"; case DAX_UDINT: return "UDINT"; case DAX_REAL: return "REAL"; case DAX_LWORD: return "LWORD"; case DAX_LINT: return "LINT"; case DAX_ULINT: return "ULINT"; case DAX_LREAL: return "LREAL"; case DAX_TIME: return "TIME"; } return "?"; }
    string def(const Typ &y) const { string s = y.n; for (auto &m : y.m) s += sfmt(":%s,%s,%u", m.n.c_str(), tname(m.t).c_str(), m.c); return s; }
};
