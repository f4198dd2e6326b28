#include "srv.h"
#include <libgen.h>
namespace srv {
using namespace ex;
void *lib; std::vector<Event> events;
static int (*main_fn)(int, char **);
struct MainArg { int argc; char *argv[16]; };
static void *main_thread(void *p) { MainArg *a = (MainArg *)p; main_fn(a->argc, a->argv); return nullptr; }
string exe_dir() { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); b[n > 0 ? n : 0] = 0; return dirname(b); }
void load(const char *so) { rt::init(); string d = exe_dir() + "/server.so"; lib = rt::load(so ? so : d.c_str()); main_fn = (int (*)(int, char **))rt::sym(lib, "server_main"); }
static char *argkeep(const std::string &s) { return strdup(s.c_str()); }
void boot(std::vector<std::string> args) {
    static MainArg ma; memset(&ma, 0, sizeof ma);
    if (args.empty()) args = {"-v"};
    ma.argv[ma.argc++] = argkeep("opendax_server");
    string cfg = exe_dir() + "/mc_server.conf";
    ma.argv[ma.argc++] = argkeep("-C"); ma.argv[ma.argc++] = argkeep(cfg);
    for (auto &a : args) if (a != "-v") ma.argv[ma.argc++] = argkeep(a);
    rt::spawn_c(0, main_thread, &ma);
    if (!rt::run_idle()) violation("hang", "the server does not come to rest while starting");
}
void idle() { if (!rt::run_idle()) violation("hang", "the server does not come to rest (endless loop without waiting for input)"); }
int connect() { int c = rt::net_connect(); idle(); return c; }
void close(int c) { rt::net_close(c); idle(); }
Bytes frame(uint32_t cmd, const Bytes &p) { B b; b.n32((uint32_t)p.size() + 8).n32(cmd).v(p); return b.b; }
static bool take(int c, Bytes &out) {             // one complete message
    static std::map<int, Bytes> hold; (void)hold;
    size_t n = rt::net_avail(c); if (n == 0) return false;
    if (n < 8) violation("protocol", "the server sent an incomplete message header (%zu bytes)", n);
    Bytes h(8); rt::net_recv(c, h.data(), 8);
    uint32_t sz; memcpy(&sz, h.data(), 4); sz = ntohl(sz);
    if (sz > 4088 || rt::net_avail(c) < sz) violation("protocol", "the server sent an incomplete message (%u announced, %zu sent)", sz, rt::net_avail(c));
    out = h; out.resize(8 + sz); rt::net_recv(c, out.data() + 8, sz); return true;
}
std::vector<Reply> drain(int c) {
    std::vector<Reply> v; Bytes m;
    while (take(c, m)) {
        uint32_t t; memcpy(&t, m.data() + 4, 4); t = ntohl(t);
        if (t & 0x80000000u) { Event e; e.conn = c; e.type = t & 0x7fffffff; uint32_t a, b;
            if (m.size() < 16) violation("protocol", "event message too short");
            memcpy(&a, m.data() + 8, 4); memcpy(&b, m.data() + 12, 4); e.idx = (int)ntohl(a); e.id = (int)ntohl(b); e.data.assign(m.begin() + 16, m.end()); events.push_back(e); continue; }
        Reply r; r.have = true; r.cmd = t & 0xffffff; r.data.assign(m.begin() + 8, m.end());
        if (t & 0x02000000u) { if (r.data.size() < 4) violation("protocol", "error reply without a code"); r.err = i32(r.data); if (r.err == 0) r.err = -9999; }
        else if (!(t & 0x01000000u)) violation("protocol", "message of unknown kind 0x%x from the server", t);
        v.push_back(r);
    }
    return v;
}
void raw(int c, const Bytes &b) { rt::net_send(c, b.data(), b.size()); idle(); }
Reply rpc(int c, uint32_t cmd, const Bytes &p) {
    raw(c, frame(cmd, p)); auto v = drain(c);
    if (v.size() > 1) violation("protocol", "%zu replies to one request (command %u)", v.size(), cmd);
    if (v.empty()) violation("no-reply", "request (command %u) was not answered%s", cmd, rt::net_server_closed(c) ? ", connection closed" : "");
    if (v[0].cmd != cmd) violation("protocol", "reply to command %u carries command %u", cmd, v[0].cmd);
    return v[0];
}
Reply reg(int c, const std::string &n, uint32_t t) { return rpc(c, MSG_MOD_REG, B().n32(t).n32(1).s(n)); }
Reply tag_add(int c, const std::string &n, uint32_t ty, uint32_t ct, uint32_t at) { return rpc(c, MSG_TAG_ADD, B().u32(ty).u32(ct).u32(at).s(n)); }
Reply tag_del(int c, int i) { return rpc(c, MSG_TAG_DEL, B().u32(i)); }
Reply tag_get(int c, const std::string &n) { return rpc(c, MSG_TAG_GET, B().u8(TAG_GET_NAME).s(n)); }
Reply tag_get(int c, int i) { return rpc(c, MSG_TAG_GET, B().u8(TAG_GET_INDEX).u32(i)); }
Reply tread(int c, int i, uint32_t o, uint32_t s) { return rpc(c, MSG_TAG_READ, B().u32(i).u32(o).u32(s)); }
Reply twrite(int c, int i, uint32_t o, const Bytes &d) { return rpc(c, MSG_TAG_WRITE, B().u32(i).u32(o).v(d)); }
Reply tmask(int c, int i, uint32_t o, const Bytes &d, const Bytes &m) { return rpc(c, MSG_TAG_MWRITE, B().u32(i).u32(o).v(d).v(m)); }
Reply ev_add(int c, H h, int t, const Bytes &d) { return rpc(c, MSG_EVNT_ADD, B().u32(h.index).u32(h.byte).u32(h.count).u32(h.type).u32(t).u32(h.size).u8(h.bit).v(d)); }
Reply ev_del(int c, int i, int id) { return rpc(c, MSG_EVNT_DEL, B().u32(i).u32(id)); }
Reply ev_opt(int c, int i, int id, uint32_t o) { return rpc(c, MSG_EVNT_OPT, B().u32(i).u32(id).u32(o)); }
Reply cdt_create(int c, const std::string &d) { return rpc(c, MSG_CDT_CREATE, B().s(d)); }
Reply cdt_get(int c, const std::string &n) { return rpc(c, MSG_CDT_GET, B().u8(CDT_GET_NAME).s(n)); }
Reply cdt_get(int c, uint32_t t) { return rpc(c, MSG_CDT_GET, B().u8(CDT_GET_TYPE).u32(t)); }
static void hb(B &b, const H &h) { b.u32(h.index).u32(h.byte).u8(h.bit).u32(h.count).u32(h.size).u32(h.type); }
Reply map_add(int c, H s, H d) { B b; hb(b, s); hb(b, d); return rpc(c, MSG_MAP_ADD, b); }
Reply map_del(int c, int i, int id) { return rpc(c, MSG_MAP_DEL, B().u32(i).u32(id)); }
Reply map_get(int c, int i, int id) { return rpc(c, MSG_MAP_GET, B().u32(i).u32(id)); }
Reply grp_add(int c, const std::vector<H> &h) { B b; b.u8((int)h.size()).u8(0); for (auto &x : h) hb(b, x); return rpc(c, MSG_GRP_ADD, b); }
Reply grp_del(int c, uint32_t i) { return rpc(c, MSG_GRP_DEL, B().u32(i)); }
Reply grp_read(int c, uint32_t i) { return rpc(c, MSG_GRP_READ, B().u32(i)); }
Reply grp_write(int c, uint32_t i, const Bytes &d) { return rpc(c, MSG_GRP_WRITE, B().u32(i).v(d)); }
Reply atomic(int c, H h, int op, const Bytes &d) { return rpc(c, MSG_ATOMIC_OP, B().u32(h.index).u32(h.byte).u32(h.count).u32(h.type).u8(h.bit).u16(op).u16(0).v(d)); }
Reply ov_add(int c, int i, uint32_t o, const Bytes &d, const Bytes &m) { return rpc(c, MSG_ADD_OVRD, B().u32(i).u32(o).u32(0).v(d).v(m)); }
Reply ov_del(int c, int i, uint32_t o, const Bytes &m) { return rpc(c, MSG_DEL_OVRD, B().u32(i).u32(o).v(m)); }
Reply ov_get(int c, int i, uint32_t o, uint32_t s) { return rpc(c, MSG_GET_OVRD, B().u32(i).u32(o).u32(s)); }
Reply ov_set(int c, int i, uint32_t f) { return rpc(c, MSG_SET_OVRD, B().u32(i).u8(f ? 0xff : 0)); }
std::string hex(const Bytes &b) { string s; for (auto x : b) s += sfmt("%02x", x); return s.empty() ? "(empty)" : s; }
int32_t i32(const Bytes &b, size_t o) { int32_t v = 0; if (b.size() >= o + 4) memcpy(&v, b.data() + o, 4); return v; }
}
