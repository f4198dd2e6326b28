#include "cli.h"
extern "C" { void *__wrap_malloc(size_t); void __wrap_free(void *); }
#include <getopt.h>
namespace srv { std::string exe_dir(); }
namespace api {
#define X(n) decltype(&::n) n;
API_LIST
#undef X
void *c_malloc(size_t n) { return __wrap_malloc(n); } void c_free(void *p) { __wrap_free(p); }
}
namespace cli {
using namespace ex;
void *lib;
void load(const char *so) {
    string d = srv::exe_dir() + "/client.so"; lib = rt::load(so ? so : d.c_str());
#define X(n) api::n = (decltype(&::n))rt::sym(lib, #n);
    API_LIST
#undef X
}
bool call(int proc, std::function<void()> f, int max_to) {
    int co = rt::spawn(proc, &f);
    for (int k = 0;; k++) {
        if (!rt::run_idle()) violation("hang", "the system does not come to rest (endless loop)");
        if (!rt::alive(co)) break;
        if (k >= max_to || !rt::fire_earliest_deadline()) violation("hang", "a library call does not return: %s", rt::describe_threads().c_str());
    }
    rt::reap(co); return true;
}
void must(int r, const char *what) { if (r) violation("refused", "%s failed with error %d", what, r); }
dax_state *open(int proc, const char *name, std::vector<std::string> args) {
    dax_state *ds = nullptr;
    call(proc, [&]() {
        optind = 0; ds = api::dax_init(name); if (!ds) violation("refused", "dax_init failed");
        std::vector<char *> av; av.push_back(strdup(name)); for (auto &a : args) av.push_back(strdup(a.c_str())); av.push_back(nullptr);
        must(api::dax_configure(ds, (int)av.size() - 1, av.data(), CFG_CMDLINE), "dax_configure");
        must(api::dax_connect(ds), "dax_connect");
    });
    return ds;
}
}
