// C16: every schedule (bounded preemptions, faults) of the client library's threads
#include "conc.h"
std::map<string, RegEnt> &regs() { static std::map<string, RegEnt> m; return m; }
Reg::Reg(const char *p, void (*f)(), const char *rule) { regs()[p] = {f, rule}; }
int main(int argc, char **argv) {
    string p = argc > 1 ? argv[1] : ""; begin(p.c_str(), argc, argv);
    auto it = regs().find(p); if (it == regs().end()) { fprintf(stderr, "unknown property\n"); return 97; }
    it->second.f();
    return finish("model_checking", it->second.rule, {"threads switch at synchronisation operations, socket calls and at memory accesses that conflict with another thread's without a common lock; memory is sequentially consistent", "the transport delivers bytes reliably and in order", "states are identified by a 56-bit hash of the complete memory of client and server"});
}
