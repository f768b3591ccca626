#include "vd.h"
#include <strings.h>
#include "utils/new.h"
#include "fast/queue.h"
#define FQMAX 64
/* exact-size storages so that out-of-range slots are caught by the sanitizer */
FQ_DYN_TYPEDEF(dq, int)
static dq *D;
#define ST(n) FQ_TYPEDEF(sq##n, int, n); static sq##n *S##n;
ST(2) ST(3) ST(4) ST(5) ST(8) ST(16)
static int kind, sz;
#define ALL(X) switch (kind ? 0 : sz) { case 0: X(D); break; case 2: X(S2); break; case 3: X(S3); break; case 4: X(S4); break; case 5: X(S5); break; case 8: X(S8); break; case 16: X(S16); break; default: abort(); }
static int X_v, X_r;
static void vd_begin(void) {
    sz = vd_int(); kind = vd_int();
    if (kind) { D = (dq*)malloc(sizeof *D); memset(D, 0x5a, sizeof *D); FQ_DYN_INIT(D, sz); return; }
#define MK(n) if (sz == n) { S##n = (sq##n*)malloc(sizeof *S##n); memset(S##n, 0x5a, sizeof *S##n); FQ_INIT(S##n, n); }
    MK(2) MK(3) MK(4) MK(5) MK(8) MK(16)
}
static void vd_op(const char *op) {
    X_r = 1; X_v = 0;
    int n, f, e;
    if (vd_is(op, "enq")) { X_v = vd_int();
#define A(Q) X_r = FQ_ENQ(Q, X_v)
        ALL(A)
    } else if (vd_is(op, "deq")) {
#define B(Q) X_r = FQ_DEQ(Q, X_v)
        ALL(B)
    } else if (vd_is(op, "reset")) {
#define R(Q) FQ_RESET(Q)
        ALL(R)
    }
#define C(Q) n = FQ_SIZE(Q), f = !!FQ_FULL_P(Q), e = !!FQ_EMPTY_P(Q)
    ALL(C)
    vd_beg(); vd_ki("r", X_r); vd_ki("v", X_v); vd_ki("n", n); vd_ki("f", f); vd_ki("e", e); vd_end();
}
static void vd_finish(void) {
#define FI(Q) free(Q)
    if (kind) { FQ_DYN_FINI(D); free(D); return; }
    ALL(FI)
}
