#include "cq.h"
#include "utils/new.h"
#include "fast/spsc_bounded_queue.h"
typedef struct { long a, b; } item;
SPSCQ_DYN_TYPEDEF(dq, item)
SPSCQ_TYPEDEF(s2, item, 2); SPSCQ_TYPEDEF(s3, item, 3); SPSCQ_TYPEDEF(s4, item, 4); SPSCQ_TYPEDEF(s5, item, 5);
static dq *D; static s2 *S2; static s3 *S3; static s4 *S4; static s5 *S5;
#define ALL(X) do { if (KIND) { X(D); } else switch (CAP) { case 1: X(S2); break; case 2: X(S3); break; case 3: X(S4); break; case 4: X(S5); break; default: abort(); } } while (0)
static void q_new(void) {
    D = malloc(sizeof *D); S2 = malloc(sizeof *S2); S3 = malloc(sizeof *S3); S4 = malloc(sizeof *S4); S5 = malloc(sizeof *S5);
    if (KIND) SPSCQ_DYN_INIT(D, CAP + 1);
#define I(q) SPSCQ_INIT(q, CAP + 1)
    else ALL(I);
}
static void q_del(void) { if (KIND) SPSCQ_DYN_FINI(D); }
static long q_op(char op, const long *a, int n, long *v, int *nv) {
    item x = { 0, 0 }; long r = 0;
    switch (op) {
    case 'e': x.a = a[0]; x.b = ~a[0];
#define E(q) r = SPSCQ_ENQ(q, x)
        ALL(E); break;
    case 'd':
#define F(q) r = SPSCQ_DEQ(q, x)
        ALL(F); if (r) { v[0] = x.a == ~x.b ? x.a : -99; *nv = 1; } break;
    case 'q':
#define Q(q) v[0] = SPSCQ_SIZE(q); v[1] = !!SPSCQ_FULL_P(q); v[2] = !!SPSCQ_EMPTY_P(q)
        ALL(Q); *nv = 3; break;
    case 'z':
#define R(q) SPSCQ_RESET(q)
        ALL(R); break;
    }
    return r;
}
static const char *q_name(char op) { return op == 'e' ? "enqb" : op == 'd' ? "deqb" : op == 'q' ? "query" : "reset"; }
