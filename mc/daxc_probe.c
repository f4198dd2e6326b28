/* The terminal that daxc sees: the harness types the lines and reads what is printed. */
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
char mc_out[1 << 16], mc_err[1 << 14], mc_line[4096]; int mc_outn, mc_errn, mc_eof, mc_prompts, mc_exited, mc_hist;
int (*mc_wait)(void);
static void put(FILE *f, const char *s, size_t n) {
    char *b = f == stdout ? mc_out : mc_err; int *p = f == stdout ? &mc_outn : &mc_errn; size_t cap = f == stdout ? sizeof mc_out : sizeof mc_err;
    if (f != stdout && f != stderr) { fwrite(s, 1, n, f); return; }
    for (size_t i = 0; i < n; i++) if ((size_t)*p + 1 < cap) b[(*p)++] = s[i] ? s[i] : ' ';
}
int mcd_vfprintf(FILE *f, const char *s, va_list a) { char b[4096]; int n = vsnprintf(b, sizeof b, s, a); put(f, b, n < (int)sizeof b ? n : (int)sizeof b - 1); return n; }
int mcd_vprintf(const char *s, va_list a) { return mcd_vfprintf(stdout, s, a); }
int mcd_printf(const char *s, ...) { va_list a; va_start(a, s); int n = mcd_vfprintf(stdout, s, a); va_end(a); return n; }
int mcd_fprintf(FILE *f, const char *s, ...) { va_list a; va_start(a, s); int n = mcd_vfprintf(f, s, a); va_end(a); return n; }
int mcd_puts(const char *s) { put(stdout, s, strlen(s)); put(stdout, "\n", 1); return 1; }
int mcd_fputs(const char *s, FILE *f) { put(f, s, strlen(s)); return 1; }
int mcd_putchar(int c) { char x = (char)c; put(stdout, &x, 1); return c; }
int mcd_fputc(int c, FILE *f) { char x = (char)c; put(f, &x, 1); return c; }
int mcd_putc(int c, FILE *f) { return mcd_fputc(c, f); }
size_t mcd_fwrite(const void *p, size_t s, size_t n, FILE *f) { put(f, p, s * n); return n; }
void mcd_perror(const char *s) { mcd_fprintf(stderr, "%s: error\n", s); }
char *mcd_readline(const char *p) {
    mc_prompts++; mc_wait();
    if (mc_eof) return 0;
    char *r = malloc(strlen(mc_line) + 1); strcpy(r, mc_line); return r;
}
void mcd_add_history(const char *s) { mc_hist++; }
void mcd_using_history(void) {}
int mcd_read_history(const char *f) { return 0; }
int mcd_write_history(const char *f) { return 0; }
void mcd_stifle_history(int n) {}
/* everything else that would reach the terminal (the library's log) */
int __wrap_printf(const char *s, ...) { return 0; }
int __wrap_puts(const char *s) { return 1; }
int __wrap_putchar(int c) { return c; }
