#include "cq.h"
#include "fast/syncq.h"
typedef struct { long a, b; } item;
SYNCQ_TYPEDEF(s1, item, 1); SYNCQ_TYPEDEF(s2, item, 2); SYNCQ_TYPEDEF(s3, item, 3); SYNCQ_TYPEDEF(s4, item, 4);
static s1 *S1; static s2 *S2; static s3 *S3; static s4 *S4;
#define ALL(X) do { switch (CAP) { case 1: X(S1); break; case 2: X(S2); break; case 3: X(S3); break; case 4: X(S4); break; default: abort(); } } while (0)
static void q_new(void) {
    int r = 0;
    S1 = malloc(sizeof *S1); S2 = malloc(sizeof *S2); S3 = malloc(sizeof *S3); S4 = malloc(sizeof *S4);
#define I(q) r = SYNCQ_INIT(q, CAP)
    ALL(I);
    if (r) vs_note_quiet("{\"k\":\"b\",\"op\":\"init\"}");
}
static void q_del(void) {
#define FI(q) SYNCQ_FINI(q)
    ALL(FI);
}
static long q_op(char op, const long *a, int n, long *v, int *nv) {
    item x = { 0, 0 };
    if (op == 'e' || op == 'E') { x.a = a[0]; x.b = ~a[0];
#define E(q) SYNCQ_ENQ(q, x)
        ALL(E);
    } else {
#define D(q) x = SYNCQ_DEQ(q)
        ALL(D); v[0] = x.a == ~x.b ? x.a : -99; *nv = 1;
    }
    return 1;
}
static const char *q_name(char op) { return op == 'e' || op == 'E' ? "enqw" : "deqw"; }
