// Modbus properties: the real Modbus module between the real tag server and a harness that plays every other Modbus device.
#include "mb.h"
std::map<string, RegEnt> &regs() { static std::map<string, RegEnt> m; return m; }
Reg::Reg(const char *p, void (*f)(), const char *rule) { regs()[p] = {f, rule}; }
int main(int argc, char **argv) {
    string p = argc > 1 ? argv[1] : ""; begin(p.c_str(), argc, argv);
    auto it = regs().find(p); if (it == regs().end()) { fprintf(stderr, "unknown property\n"); return 97; }
    it->second.f();
    return finish("model_checking", it->second.rule, {"TCP delivers bytes reliably and in order; a serial line delivers what is sent, in any portions", "states are identified by a 56-bit hash of the complete memory of server and module and the model"});
}
