/* The file system and the plugins that the historical logger sees: its log files are kept in memory, the plugins are linked in. */
#include <stdio.h>
#include <string.h>
#include <sqlite3.h>
struct mc_file { int open; long written, flushed; char name[200]; char d[6000]; } mc_files[6]; int mc_nfiles, mc_exited; sqlite3 *mc_db;
FILE *mc_pool[6];
static ssize_t wr(void *c, const char *b, size_t n) { struct mc_file *f = c; size_t k = n; if (!f->open) return -1; if (f->written + k > sizeof f->d) k = sizeof f->d - f->written; memcpy(f->d + f->written, b, k); f->written += k; return n; }
void mc_open_pool(void) { for (int i = 0; i < 6; i++) { cookie_io_functions_t io = {0, wr, 0, 0}; mc_pool[i] = fopencookie(&mc_files[i], "w", io); setvbuf(mc_pool[i], 0, _IONBF, 0); } }
FILE *mcf_fopen(const char *n, const char *m) { if (mc_nfiles >= 6 || (*m != 'a' && *m != 'w')) return 0; struct mc_file *f = &mc_files[mc_nfiles]; f->open = 1; f->written = f->flushed = 0; snprintf(f->name, sizeof f->name, "%s", n); return mc_pool[mc_nfiles++]; }
int mcf_fflush(FILE *p) { for (int i = 0; i < 6; i++) if (!p || mc_pool[i] == p) mc_files[i].flushed = mc_files[i].written; return 0; }
int mcf_fclose(FILE *p) { for (int i = 0; i < 6; i++) if (mc_pool[i] == p) { mc_files[i].flushed = mc_files[i].written; mc_files[i].open = 0; } return 0; }
extern int pf_init(), ps_init(); extern void *pf_add_tag(), *ps_add_tag(); extern int pf_free_tag(), ps_free_tag(), pf_write_data(), ps_write_data(), pf_flush_data(), ps_flush_data(); extern void pf_set_timefunc(), ps_set_timefunc();
void *__wrap_dlopen(const char *n, int f) { return n && strstr(n, "sqlite") ? (void *)2 : n && strstr(n, "file") ? (void *)1 : 0; }
void *__wrap_dlsym(void *h, const char *s) {
    int q = h == (void *)2;
    #define F(x) if (!strcmp(s, #x)) return q ? (void *)ps_##x : (void *)pf_##x;
    F(init) F(add_tag) F(free_tag) F(write_data) F(flush_data) F(set_timefunc) return 0;
}
int __wrap_dlclose(void *h) { return 0; }
int __real_sqlite3_open(const char *n, sqlite3 **d); int __real_sqlite3_open_v2(const char *n, sqlite3 **d, int f, const char *v);
int __wrap_sqlite3_open(const char *n, sqlite3 **d) { int r = __real_sqlite3_open(":memory:", d); mc_db = *d; return r; }
int __wrap_sqlite3_open_v2(const char *n, sqlite3 **d, int f, const char *v) { int r = __real_sqlite3_open_v2(":memory:", d, f, v); mc_db = *d; return r; }
/* rows as text, '|' between columns, newline after rows; NULL as NULL */
int mc_query(const char *sql, char *out, int cap) {
    sqlite3_stmt *s; int n = 0; out[0] = 0; if (!mc_db || sqlite3_prepare_v2(mc_db, sql, -1, &s, 0)) return -1;
    while (sqlite3_step(s) == SQLITE_ROW) { for (int i = 0; i < sqlite3_column_count(s); i++) { char b[40]; const char *t; if (sqlite3_column_type(s, i) == SQLITE_FLOAT) { sprintf(b, "%.17g", sqlite3_column_double(s, i)); t = b; } else t = (const char *)sqlite3_column_text(s, i); n += snprintf(out + n, cap > n ? cap - n : 0, "%s%s", i ? "|" : "", t ? t : "NULL"); } n += snprintf(out + n, cap > n ? cap - n : 0, "\n"); }
    sqlite3_finalize(s); return n < cap ? 0 : -1;
}
