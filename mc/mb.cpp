#include "mb.h"
#include <getopt.h>
namespace mbx {
void *lib; int wire; static int (*main_fn)(int, char **); static int (*probe)(int, int, unsigned *);
struct MA { int argc; char *argv[6]; };
static void *main_thread(void *p) { MA *a = (MA *)p; main_fn(a->argc, a->argv); return nullptr; }
void load() {
    srv::load(); lib = rt::load((srv::exe_dir() + "/modbus.so").c_str()); main_fn = (int (*)(int, char **))rt::sym(lib, "modbus_main"); probe = (int (*)(int, int, unsigned *))rt::sym(lib, "mc_mb_cmd");
    srv::boot(); wire = srv::connect(); srv::reg(wire, "wire");
}
void idle() { if (!rt::run_idle()) violation("hang", "the system does not come to rest (endless loop)"); }
void start(const string &config) {
    string f = srv::exe_dir() + sfmt("/mb_%d.conf", (int)getpid()); FILE *o = fopen(f.c_str(), "w"); fputs(config.c_str(), o); fclose(o);
    static MA ma; memset(&ma, 0, sizeof ma); ma.argv[ma.argc++] = strdup("modbus"); ma.argv[ma.argc++] = strdup("-C"); ma.argv[ma.argc++] = strdup(f.c_str()); optind = 0;
    rt::spawn_c(1, main_thread, &ma); idle(); unlink(f.c_str());
}
Tag tag(const string &n) { Tag t; auto r = srv::tag_get(wire, n); if (r.err) return t; t.idx = srv::i32(r.data); uint32_t ty, c; memcpy(&ty, &r.data[4], 4); memcpy(&c, &r.data[8], 4); t.size = ty == DAX_BOOL ? (c + 7) / 8 : ty & DAX_CUSTOM ? 0 : TYPESIZE(ty) / 8 * c; return t; }
Tag newtag(const string &n, uint32_t ty, uint32_t c) { auto r = srv::tag_add(wire, n, ty, c); if (r.err) violation("refused", "tag %s: error %d", n.c_str(), r.err); return tag(n); }
Bytes get(const Tag &t) { Bytes o; for (uint32_t p = 0; p < t.size; p += 4000) { uint32_t n = t.size - p < 4000 ? t.size - p : 4000; auto r = srv::tread(wire, t.idx, p, n); if (r.err) violation("refused", "reading tag %d: error %d", t.idx, r.err); o.insert(o.end(), r.data.begin(), r.data.end()); } return o; }
void put(const Tag &t, const Bytes &d, uint32_t off) { for (size_t p = 0; p < d.size(); p += 4000) { size_t n = d.size() - p < 4000 ? d.size() - p : 4000; auto r = srv::twrite(wire, t.idx, (uint32_t)(off + p), Bytes(d.begin() + (long)p, d.begin() + (long)(p + n))); if (r.err) violation("refused", "writing tag %d: error %d", t.idx, r.err); } }
bool until(std::function<bool()> done, int64_t ms) {
    int64_t end = *rt::now_ms + ms; idle();
    for (int k = 0; k < 4000; k++) { if (done && done()) return true; if (*rt::now_ms >= end) return false; if (!rt::fire_earliest_deadline()) return false; idle(); pet(); }
    violation("hang", "no progress within the expected time: %s", rt::describe_threads().c_str());
}
Bytes take(int c) { Bytes b(rt::net_avail(c)); if (b.size()) rt::net_recv(c, b.data(), b.size()); return b; }
uint16_t crc(const Bytes &m) { uint16_t c = 0xFFFF; for (uint8_t x : m) { c ^= x; for (int i = 0; i < 8; i++) c = (uint16_t)(c & 1 ? (c >> 1) ^ 0xA001 : c >> 1); } return c; }
Bytes rtu(const Bytes &b) { Bytes r = b; uint16_t c = crc(b); r.push_back((uint8_t)c); r.push_back((uint8_t)(c >> 8)); return r; }
Bytes tcp(int tid, const Bytes &adu, int len) { return cat(be({tid, 0, len >= 0 ? len : (int)adu.size()}), adu); }
Cnt cmd(int p, int n) { unsigned o[8]; Cnt c; if (!probe(p, n, o)) violation("lost", "command %d of port %d is gone", n, p); c = {o[0], o[1], o[2], o[3], o[4], o[5], o[6], o[7]}; return c; }
}
