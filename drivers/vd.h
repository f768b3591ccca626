/* Driver helper: read operation scripts from stdin, write results as JSON lines. */
#ifndef VD_H
#define VD_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <errno.h>

static char  *vd_line;
static size_t vd_cap;
static char  *vd_p;
static int    vd_first;

static inline int vd_next(void) {            /* next line; 0 at EOF */
    ssize_t n = getline(&vd_line, &vd_cap, stdin);
    if (n < 0) return 0;
    while (n > 0 && (vd_line[n-1] == '\n')) vd_line[--n] = 0;
    vd_p = vd_line;
    return 1;
}
static inline char *vd_tok(void) {
    while (*vd_p == ' ') vd_p++;
    char *s = vd_p;
    while (*vd_p && *vd_p != ' ') vd_p++;
    if (*vd_p) *vd_p++ = 0;
    return s;
}
static inline long vd_int(void) { return strtol(vd_tok(), 0, 10); }
static inline unsigned long long vd_u64(void) { return strtoull(vd_tok(), 0, 10); }
/* list of ints -> malloc'ed byte buffer with exact size n (plus NUL if z) */
static inline uint8_t *vd_bytes(size_t *pn, int z) {
    long n = vd_int();
    uint8_t *b = (uint8_t*)malloc(n + (z ? 1 : 0) + (n + z == 0));
    for (long i = 0; i < n; i++) b[i] = (uint8_t)vd_int();
    if (z) b[n] = 0;
    if (pn) *pn = n;
    return b;
}
static inline char *vd_str(void) { return (char*)vd_bytes(0, 1); }
static inline long *vd_ints(size_t *pn) {
    long n = vd_int();
    long *b = (long*)malloc(sizeof(long) * (n ? n : 1));
    for (long i = 0; i < n; i++) b[i] = vd_int();
    *pn = n;
    return b;
}
static inline int vd_is(const char *a, const char *b) { return 0 == strcmp(a, b); }

static inline void vd_beg(void) { putchar('{'); vd_first = 1; }
static inline void vd_key(const char *k) { printf(vd_first ? "\"%s\":" : ",\"%s\":", k); vd_first = 0; }
static inline void vd_ki(const char *k, long v) { vd_key(k); printf("%ld", v); }
static inline void vd_kb(const char *k, const void *p, size_t n) {
    const uint8_t *b = (const uint8_t*)p;
    vd_key(k); putchar('[');
    for (size_t i = 0; i < n; i++) printf(i ? ",%d" : "%d", b[i]);
    putchar(']');
}
static inline void vd_ks(const char *k, const char *s) { vd_kb(k, s, strlen(s)); }
static inline void vd_kl(const char *k, const long *p, size_t n) {
    vd_key(k); putchar('[');
    for (size_t i = 0; i < n; i++) printf(i ? ",%ld" : "%ld", p[i]);
    putchar(']');
}
/* 64-bit value as four 16-bit limbs, most significant first (TLC has 32-bit ints) */
static inline void vd_k64(const char *k, uint64_t v) {
    vd_key(k); printf("[%d,%d,%d,%d]", (int)(v>>48)&0xffff, (int)(v>>32)&0xffff, (int)(v>>16)&0xffff, (int)v&0xffff);
}
static inline void vd_end(void) { puts("}"); }
static inline void vd_r(long r) { vd_beg(); vd_ki("r", r); vd_end(); }

/* main loop: user supplies vd_begin(), vd_op(op), vd_finish() */
static void vd_begin(void);
static void vd_op(const char *op);
static void vd_finish(void);
int main(int argc, char **argv) {
    (void)argc; (void)argv;
    setvbuf(stdout, 0, _IOLBF, 1 << 16);
#ifdef VD_INIT
    VD_INIT(argc, argv);
#endif
    while (vd_next()) {
        char *op = vd_tok();
        if (vd_is(op, "@")) { puts("@"); vd_begin(); }
        else if (vd_is(op, ".")) { vd_finish(); puts("."); }
        else if (*op) vd_op(op);
    }
    return 0;
}
#endif
