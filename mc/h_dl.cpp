// daxlua properties: the real module with its threads between the real tag server and a harness that plays the other modules.
#include "dl.h"
std::map<string, RegEnt> &regs() { static std::map<string, RegEnt> m; return m; }
Reg::Reg(const char *p, void (*f)(), const char *rule) { regs()[p] = {f, rule}; }
int main(int argc, char **argv) {
    string p = argc > 1 ? argv[1] : ""; begin(p.c_str(), argc, argv);
    auto it = regs().find(p); if (it == regs().end()) { fprintf(stderr, "unknown property\n"); return 97; }
    it->second.f();
    return finish("model_checking", it->second.rule, {"threads switch at synchronisation and socket operations (accesses between two of them happen at once)", "the tag server answers a request at once (its timing is explored for C16)", "states are identified by a 56-bit hash of the complete memory of server and module"});
}
