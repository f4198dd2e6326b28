// The real daxlua module (interpreters, worker threads, interval threads, triggers) as process 1, connected to the real tag server.
#pragma once
#include "srv.h"
#include <opendax.h>
using namespace ex;
struct Reg { Reg(const char *p, void (*f)(), const char *rule); };
struct RegEnt { void (*f)(); string rule; }; std::map<string, RegEnt> &regs();
inline bool thorough() { return g_tier == "thorough"; }
inline Bytes by(std::initializer_list<int> l) { Bytes r; for (int x : l) r.push_back((uint8_t)x); return r; }
namespace dl {
struct Mark { int id; long ms; char t[120]; };
struct Prog { const char *so, *main, *name; int threads; }; extern Prog prog; extern void *lib; extern vector<string> args;             // the module that is explored (daxlua by default)
extern Mark *marks; extern int *nmarks; extern int wire;
typedef std::map<string, string> Files;                   // script name -> text
void load();
void start(const string &config, const Files &f, bool wait = true);     // %D in the configuration is the directory of the scripts
void idle(); void pass(int64_t ms);
bool running();                                          // the module's main thread is alive
int count(int id); std::vector<string> texts(int id);
int tag(const string &n, uint32_t type, uint32_t count, uint32_t attr = 0);
void put(int idx, const Bytes &d, uint32_t off = 0);     // write by another module, everything comes to rest
void send_raw(uint32_t cmd, const Bytes &b); void send(int idx, const Bytes &d, uint32_t off = 0);    // the server handles it, the module has not yet
Bytes get(int idx, uint32_t off, uint32_t n);
// exploration of the schedules of the module's threads
struct Scn { string name, conf; Files files; std::function<void()> setup, ready; vector<std::function<void()>> foreign; vector<string> names; std::function<void()> final; int pre = 1; bool from_start = false; int settle = 4000; };
void run(const Scn &s);
}
