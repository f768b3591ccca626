#include "cq.h"
#include "utils/new.h"
#include <stdio.h>
#include "fast/mpmc_bounded_queue.h"
typedef struct { long a, b; } item;
MPMC_QUEUE_TYPE(mq, item);
static mq *Q;
static void q_new(void) { Q = MPMC_QUEUE_NEW(mq, KIND); }   /* KIND: requested size; CAP: resulting capacity */
static void q_del(void) { MPMC_QUEUE_DEL(Q); }
static long q_op(char op, const long *a, int n, long *v, int *nv) {
    item x = { 0, 0 }; long r = 0;
    switch (op) {
    case 'e': x.a = a[0]; x.b = ~a[0]; r = MPMC_QUEUE_ENQ(Q, x); break;
    case 'E': x.a = a[0]; x.b = ~a[0]; MPMC_QUEUE_ENQ_WAIT(Q, x); r = 1; break;
    case 'd': r = MPMC_QUEUE_DEQ(Q, x); if (r) { v[0] = x.a == ~x.b ? x.a : -99; *nv = 1; } break;
    case 'D': MPMC_QUEUE_DEQ_WAIT(Q, x); r = 1; v[0] = x.a == ~x.b ? x.a : -99; *nv = 1; break;
    case 'q': v[0] = (int)MPMC_QUEUE_SIZE(Q); v[1] = !!MPMC_QUEUE_FULL_P(Q); v[2] = !!MPMC_QUEUE_EMPTY_P(Q); *nv = 3; break;
    case 'c': r = MPMC_QUEUE_CAP(Q); break;
    case 'z': MPMC_QUEUE_RESET(Q); break;
    }
    return r;
}
static const char *q_name(char op) {
    switch (op) { case 'e': return "enqb"; case 'E': return "enqw"; case 'd': return "deqb"; case 'D': return "deqw"; case 'q': return "query"; case 'c': return "capacity"; }
    return "reset";
}
