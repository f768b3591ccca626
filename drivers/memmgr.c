/* memory managers of every kind, over recording providers */
#include "vd.h"
#include <setjmp.h>
#include <stdarg.h>
#include "utils/memmgr.h"
#undef malloc_memmgr
static int inside, failnext, fatal, ncalls; static long calls[64]; static jmp_buf out;
static void *blk[4096]; static int nblk; static int kind; static memmgr *M; static char cookie;
void *__real_malloc(size_t n); void __real_free(void *p);
static int idof(void *p) { if (!p) return 0; for (int i = nblk; i > 0; i--) if (blk[i] == p) return i; return -9; }
static void rec(int who, void *ctx, long x) { if (ncalls < 60) { calls[ncalls++] = who; calls[ncalls++] = ctx == &cookie ? 7 : ctx ? 99 : 0; calls[ncalls++] = x; } }
static void *give(size_t n) { if (failnext) { failnext = 0; return 0; } void *p = __real_malloc(n ? n : 1); blk[++nblk] = p; return p; }
void *__wrap_malloc(size_t n) { if (!inside) return __real_malloc(n); rec(3, 0, n); return give(n); }
void __wrap_free(void *p) { if (!inside) { __real_free(p); return; } int k = idof(p); rec(4, 0, k); if (k > 0) blk[k] = 0; __real_free(p); }
static void *my_alloc(void *c, size_t n) { rec(1, c, n); return give(n); }
static void my_free(void *c, void *p) { int k = idof(p); rec(2, c, k); if (k > 0) { __real_free(p); blk[k] = 0; } }
/* what the library calls when it gives up: never returns */
void error(int done, int err, const char *fmt, ...) { (void)fmt; fatal = done ? err : -1; longjmp(out, 1); }
static void vd_begin(void) {
    kind = vd_int() - 1; M = __real_malloc(sizeof *M); memset(M, 0x5a, sizeof *M); nblk = 0; ncalls = 0; memset(blk, 0, sizeof blk);
    memmgr *r = kind == 0 ? memmgr_init(M, my_alloc, my_free, &cookie) : kind == 1 ? memmgr_init(M, my_alloc, 0, &cookie) : kind == 2 ? memmgr_init_default(M) : memmgr_init_xmalloc(M);
    if (r != M) exit(9);
}
static void vd_finish(void) { for (int i = 1; i <= nblk; i++) if (blk[i]) { __real_free(blk[i]); blk[i] = 0; } __real_free(M); M = 0; }
static void vd_calls(void) { fputs("", stdout); long t[64]; memcpy(t, calls, sizeof t); vd_kl("calls", t, ncalls); }
static void vd_op(const char *op) {
    volatile int ret = 0; ncalls = 0; fatal = 0;
    if (!strcmp(op, "alloc")) {
        int n = vd_int(); failnext = vd_int(); void *volatile p = 0;
        inside = 1; if (!setjmp(out)) { p = memmgr_alloc(M, n); ret = idof(p); } else ret = -1; inside = 0; failnext = 0;
        if (ret > 0) memset((void *)p, 0x11, n ? n : 1);
        vd_beg(); vd_ki("ret", ret); vd_ki("err", fatal); vd_calls(); vd_end();
    } else if (!strcmp(op, "free")) {
        int p = vd_int(); inside = 1; if (!setjmp(out)) memmgr_free(M, p ? blk[p] : 0); inside = 0; if (kind == 1 && p) { __real_free(blk[p]); blk[p] = 0; }
        vd_beg(); vd_calls(); vd_end();
    } else if (!strcmp(op, "null")) {
        ret = memmgr_init(0, my_alloc, 0, 0) != 0 || memmgr_init_default(0) != 0 || memmgr_init_xmalloc(0) != 0;
        vd_beg(); vd_ki("ret", ret); vd_calls(); vd_end();
    } else {
        vd_beg(); vd_ki("valid", memmgr_valid_p(M) != 0); vd_ki("same", M->context == (kind < 2 ? &cookie : 0)); vd_end();
    }
}
