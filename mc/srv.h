// Boots the real tag server in the runtime and talks its wire protocol.
#pragma once
#include "explore.h"
#include <arpa/inet.h>
#include <libcommon.h>
typedef std::vector<uint8_t> Bytes;
namespace srv {
extern void *lib;
void load(const char *so = nullptr);               // dlopen
std::string exe_dir();
void boot(std::vector<std::string> args = {});     // runs main() until idle
struct Reply { int err = 0; bool have = false; uint32_t cmd = 0; Bytes data; };       // err: 0 ok, <0 error code sent by the server
struct Event { int conn; uint32_t type; int32_t idx, id; Bytes data; };
extern std::vector<Event> events;                  // notifications received since last clear
int  connect();
void close(int conn);
Bytes frame(uint32_t cmd, const Bytes &payload);
Reply rpc(int conn, uint32_t cmd, const Bytes &payload);
void raw(int conn, const Bytes &b);                // send raw bytes and run to idle
std::vector<Reply> drain(int conn);                // parse everything received; events are appended to events
void idle();
struct B { Bytes b; B &u8(int v) { b.push_back((uint8_t)v); return *this; } B &u16(int v) { return raw(&v, 2); } B &u32(uint32_t v) { return raw(&v, 4); } B &n32(uint32_t v) { v = htonl(v); return raw(&v, 4); }
  B &raw(const void *p, size_t n) { b.insert(b.end(), (const uint8_t *)p, (const uint8_t *)p + n); return *this; } B &s(const std::string &x, bool nul = true) { raw(x.data(), x.size()); if (nul) b.push_back(0); return *this; } B &v(const Bytes &x) { return raw(x.data(), x.size()); } operator Bytes() { return b; } };
// convenience wrappers of every command
Reply reg(int c, const std::string &name, uint32_t timeout = 1000);
Reply tag_add(int c, const std::string &name, uint32_t type, uint32_t count, uint32_t attr = 0);
Reply tag_del(int c, int idx);
Reply tag_get(int c, const std::string &name);
Reply tag_get(int c, int idx);
Reply tread(int c, int idx, uint32_t off, uint32_t size);
Reply twrite(int c, int idx, uint32_t off, const Bytes &d);
Reply tmask(int c, int idx, uint32_t off, const Bytes &d, const Bytes &m);
struct H { int32_t index; uint32_t byte; uint8_t bit; uint32_t count, size, type; };
Reply ev_add(int c, H h, int type, const Bytes &data = {});
Reply ev_del(int c, int idx, int id);
Reply ev_opt(int c, int idx, int id, uint32_t opt);
Reply cdt_create(int c, const std::string &d);
Reply cdt_get(int c, const std::string &name);
Reply cdt_get(int c, uint32_t type);
Reply map_add(int c, H s, H d);
Reply map_del(int c, int idx, int id);
Reply map_get(int c, int idx, int id);
Reply grp_add(int c, const std::vector<H> &h);
Reply grp_del(int c, uint32_t i);
Reply grp_read(int c, uint32_t i);
Reply grp_write(int c, uint32_t i, const Bytes &d);
Reply atomic(int c, H h, int op, const Bytes &d);
Reply ov_add(int c, int idx, uint32_t off, const Bytes &d, const Bytes &m);
Reply ov_del(int c, int idx, uint32_t off, const Bytes &m);
Reply ov_get(int c, int idx, uint32_t off, uint32_t size);
Reply ov_set(int c, int idx, uint32_t flag);
std::string hex(const Bytes &b);
int32_t i32(const Bytes &b, size_t o = 0);
}
