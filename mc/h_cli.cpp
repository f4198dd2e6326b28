// Client library properties: the real client library talking to the real server inside one explored system.
#include "cscn.h"
std::map<string, RegEnt> &regs() { static std::map<string, RegEnt> m; return m; }
Reg::Reg(const char *p, void (*f)(), const char *rule) { regs()[p] = {f, rule}; }
int main(int argc, char **argv) {
    string p = argc > 1 ? argv[1] : ""; begin(p.c_str(), argc, argv);
    auto it = regs().find(p); if (it == regs().end()) { fprintf(stderr, "unknown property\n"); return 97; }
    it->second.f();
    return finish("model_checking", it->second.rule, {"the virtual transport delivers bytes reliably and in order (TCP/Unix stream semantics)", "states are identified by a 56-bit hash of the complete memory of server and client and the model"});
}
