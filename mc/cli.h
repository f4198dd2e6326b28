// The real client library inside the runtime: every public function of opendax.h is called through the loaded client.so.
#pragma once
#include "srv.h"
#include <opendax.h>
namespace cli {
extern void *lib;
void load(const char *so = nullptr);
bool call(int proc, std::function<void()> f, int max_timeouts = 40);        // runs f as a thread of that process to its end; hang -> violation
dax_state *open(int proc, const char *name, std::vector<std::string> args = {});
void must(int r, const char *what);
}
#define API_LIST X(dax_init) X(dax_configure) X(dax_connect) X(dax_disconnect) X(dax_free) X(dax_get_attr) X(dax_set_attr) X(dax_tag_add) X(dax_tag_del) X(dax_tag_byname) X(dax_tag_byindex) X(dax_tag_handle) X(dax_read) X(dax_write) X(dax_mask) \
 X(dax_tag_read) X(dax_tag_write) X(dax_tag_mask) X(dax_tag_add_override) X(dax_tag_del_override) X(dax_tag_get_override) X(dax_tag_set_override) X(dax_tag_clr_override) X(dax_atomic_op) X(dax_event_add) X(dax_event_del) X(dax_event_options) X(dax_event_wait) X(dax_event_poll) X(dax_event_get_data) \
 X(dax_cdt_new) X(dax_cdt_member) X(dax_cdt_create) X(dax_cdt_free) X(dax_get_typesize) X(dax_string_to_type) X(dax_type_to_string) X(dax_cdt_iter) X(dax_cdt_member_count) X(dax_fqn) X(dax_map_add) X(dax_map_get) X(dax_map_del) X(dax_group_add) X(dax_group_read) X(dax_group_write) X(dax_group_del) X(dax_group_get_size) \
 X(dax_val_to_string) X(dax_string_to_val) X(dax_add_attribute) X(dax_attr_callback) X(dax_set_disconnect_callback) X(dax_get_max_tag_msg_size)
namespace api {
#define X(n) extern decltype(&::n) n;
API_LIST
#undef X
void *c_malloc(size_t n); void c_free(void *p);           // client's heap (arena): buffers passed to the library are checked exactly
}
struct CBuf { uint8_t *p; size_t n; CBuf(size_t n_, int fill = 0xEE) : n(n_) { p = (uint8_t *)api::c_malloc(n ? n : 1); memset(p, fill, n); } CBuf(const Bytes &b) : n(b.size()) { p = (uint8_t *)api::c_malloc(n ? n : 1); if (n) memcpy(p, b.data(), n); } ~CBuf() { api::c_free(p); } CBuf(const CBuf &) = delete; Bytes get() const { return Bytes(p, p + n); } };
