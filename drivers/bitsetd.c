#include "vd.h"
#include <assert.h>
#include <alloca.h>
#include "utils/utils.h"
#include "fast/bitset.h"
static bitset *B[3]; static long n;
static void vd_begin(void) { n = vd_int(); for (int i = 0; i < 3; i++) B[i] = bitset_new(n); }
static void report(long r) {
    static const char *nm[3] = { "x", "y", "z" }; vd_beg(); vd_ki("r", r);
    for (int j = 0; j < 3; j++) { static long t[200000]; size_t m = 0; for (long i = 0; i < n; i++) { int v = bitset_isset(B[j], i); if (!!v != !!bitset_value(B[j], i)) abort(); if (v) t[m++] = i; } vd_kl(nm[j], t, m); }
    vd_end();
}
static void vd_op(const char *op) {
    int d = vd_int(); long i = vd_int(), r = 0; bitset *a = B[d], *b = i >= 0 && i < 3 ? B[i] : 0;
    if (vd_is(op, "set")) bitset_set(a, i); else if (vd_is(op, "clr")) bitset_clr(a, i); else if (vd_is(op, "test")) r = !!bitset_isset(a, i);
    else if (vd_is(op, "copy")) bitset_copy(a, b); else if (vd_is(op, "or")) bitset_or(a, b); else if (vd_is(op, "and")) bitset_and(a, b);
    else if (vd_is(op, "xor")) bitset_xor(a, b); else if (vd_is(op, "andnot")) bitset_andnot(a, b); else if (vd_is(op, "not")) bitset_not(a);
    else if (vd_is(op, "dup")) { bitset *c = bitset_dup(b); if (d != i) { bitset_del(a); B[d] = c; } else { bitset_del(a); B[d] = c; } }
    else if (vd_is(op, "dupa")) { bitset *c = bitset_dup_alloca(b); bitset_copy(a, c); bitset_not(c); }
    else if (vd_is(op, "new")) { bitset_del(a); B[d] = bitset_new(n); }
    else if (vd_is(op, "newa")) { bitset *c = bitset_alloca(n); bitset_copy(a, c); bitset_not(c); } else r = -99;
    report(r);
}
static void vd_finish(void) { for (int i = 0; i < 3; i++) bitset_del(B[i]); }
