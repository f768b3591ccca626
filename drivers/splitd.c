#include "vd.h"
#include <sys/types.h>
#include "utils/strutils.h"
static void vd_begin(void) { vd_int(); }
static void report(long r, char **f, char *s, size_t n) {
    int inb = 1;
    vd_beg(); vd_ki("r", r); vd_key("f"); putchar('[');
    for (long i = 0; i < r; i++) {
        if (f[i] < s || f[i] > s + n) { inb = 0; break; }
        if (i) putchar(',');
        putchar('[');
        for (size_t j = 0; f[i][j]; j++) printf(j ? ",%d" : "%d", 0xff & f[i][j]);
        putchar(']');
    }
    putchar(']'); vd_ki("inb", inb); vd_end();
}
static void vd_op(const char *op) {
    size_t n; char *s = (char *)vd_bytes(&n, 1);
    if (vd_is(op, "split")) {
        char *d = vd_str(); int sq = vd_int(), k = 0;
        char **f = strsplit(&k, s, d, sq);
        if (f) report(k, f, s, n); else report(-1, 0, s, n);
        free(f); free(d);
    } else if (vd_is(op, "quick")) {
        char *d = vd_str(); int sq = vd_int(), k = vd_int();
        char **f = malloc(k * sizeof *f);
        int r = strsplit_quick(f, k, s, d, sq);
        report(r > k ? k : r, f, s, n);
        free(f); free(d);
    } else if (vd_is(op, "csv")) {
        char *d = vd_str(); int nul = vd_int(), k = vd_int();
        char **f = malloc(k * sizeof *f);
        report(strsplit_csv(f, k, s, nul ? 0 : d), f, s, n);
        free(f); free(d);
    } else if (vd_is(op, "args")) {
        int k = vd_int();
        char **f = malloc(k * sizeof *f);
        report(strsplitargs(f, k, s), f, s, n);
        free(f);
    }
    free(s);
}
static void vd_finish(void) { }
