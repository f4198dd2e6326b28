// Shared helpers of the server scenarios.
#pragma once
#include "model.h"
using namespace ex; using namespace md;
typedef Explorer<Sys> X;
inline bool thorough() { return g_tier == "thorough"; }
inline Bytes b(std::initializer_list<int> l) { Bytes r; for (int x : l) r.push_back((uint8_t)x); return r; }
template <class T> inline Bytes val(T v) { Bytes r(sizeof v); memcpy(r.data(), &v, sizeof v); return r; }
inline Bytes pat(size_t n, int seed) { Bytes r(n); for (size_t i = 0; i < n; i++) r[i] = (uint8_t)(seed + i * 37); return r; }
struct TypeName { uint32_t t; const char *n; };
inline const std::vector<TypeName> &types() { static const std::vector<TypeName> T = {{DAX_BOOL, "BOOL"}, {DAX_BYTE, "BYTE"}, {DAX_SINT, "SINT"}, {DAX_CHAR, "CHAR"}, {DAX_WORD, "WORD"}, {DAX_INT, "INT"}, {DAX_UINT, "UINT"}, {DAX_DWORD, "DWORD"}, {DAX_DINT, "DINT"}, {DAX_UDINT, "UDINT"}, {DAX_REAL, "REAL"}, {DAX_LWORD, "LWORD"}, {DAX_LINT, "LINT"}, {DAX_ULINT, "ULINT"}, {DAX_LREAL, "LREAL"}, {DAX_TIME, "TIME"}}; return T; }
struct Reg { Reg(const char *p, void (*f)(), const char *rule); };
struct RegEnt { void (*f)(); string rule; }; std::map<string, RegEnt> &regs();
