// The real Modbus module (all of it: configuration, ports, tags, events) as process 1, connected to the real tag server.
#pragma once
#include "srv.h"
using namespace ex;
namespace srv { std::string exe_dir(); }
struct Reg { Reg(const char *p, void (*f)(), const char *rule); };
struct RegEnt { void (*f)(); string rule; }; std::map<string, RegEnt> &regs();
inline bool thorough() { return g_tier == "thorough"; }
inline Bytes cat(Bytes a, const Bytes &b) { a.insert(a.end(), b.begin(), b.end()); return a; }
inline Bytes by(std::initializer_list<int> l) { Bytes r; for (int x : l) r.push_back((uint8_t)x); return r; }
inline Bytes be(std::initializer_list<int> l) { Bytes r; for (int x : l) { r.push_back((uint8_t)(x >> 8)); r.push_back((uint8_t)x); } return r; }
namespace mbx {
extern void *lib; extern int wire;
struct Tag { int idx = -1; uint32_t size = 0; };
void load();                                             // server + wire connection
void start(const string &config);                        // the module with that configuration file
Tag tag(const string &name);                             // looks the tag up at the server
Tag newtag(const string &name, uint32_t type, uint32_t count);
Bytes get(const Tag &t); void put(const Tag &t, const Bytes &d, uint32_t off = 0);
void idle();
bool until(std::function<bool()> done, int64_t ms);      // lets time pass until done() or ms have gone by
Bytes take(int conn);                                    // all bytes that arrived at a harness side connection
uint16_t crc(const Bytes &b); Bytes rtu(const Bytes &b); // with checksum
Bytes tcp(int tid, const Bytes &adu, int len = -1);      // MBAP header
struct Cnt { unsigned req, resp, tmo, crc, exc, last, en, size; };
Cnt cmd(int port, int n);
}
