/* queues of any size and age used by one thread; one translation unit per queue type (QK) */
#include "vd.h"
#include <assert.h>
#include <strings.h>
#include "utils/new.h"
#include "utils/utils.h"
typedef struct { long a, b; } item;
static int kind, req, cap, pt; static long next_ = 1;
static item mk(void) { item x = { next_, ~next_ }; return x; }
static long val(item x) { return x.a == ~x.b ? x.a : -99; }
#define SZS(X) X(2) X(129) X(257) X(300) X(40000) X(65537) X(70000)
#if QK == 0
#include "fast/queue.h"
FQ_DYN_TYPEDEF(dq, item)
#define M(n) FQ_TYPEDEF(t##n, item, n);
#define Q_INIT FQ_INIT
#define Q_DYN FQ_DYN_INIT
#define Q_DYNFINI FQ_DYN_FINI
#define ENQ(q, x) FQ_ENQ(q, x)
#define DEQ(q, x) FQ_DEQ(q, x)
#define SIZE(q) FQ_SIZE(q)
#define FULL(q) !!FQ_FULL_P(q)
#define EMPTY(q) !!FQ_EMPTY_P(q)
#elif QK == 1
#include "fast/spsc_bounded_queue.h"
SPSCQ_DYN_TYPEDEF(dq, item)
#define M(n) SPSCQ_TYPEDEF(t##n, item, n);
#define Q_INIT SPSCQ_INIT
#define Q_DYN SPSCQ_DYN_INIT
#define Q_DYNFINI SPSCQ_DYN_FINI
#define ENQ(q, x) SPSCQ_ENQ(q, x)
#define DEQ(q, x) SPSCQ_DEQ(q, x)
#define SIZE(q) SPSCQ_SIZE(q)
#define FULL(q) !!SPSCQ_FULL_P(q)
#define EMPTY(q) !!SPSCQ_EMPTY_P(q)
#elif QK == 4
#include "fast/syncq.h"
#define M(n) SYNCQ_TYPEDEF(t##n, item, n);
static int irc;
#define Q_INIT(q, n) do { irc = SYNCQ_INIT(q, n); if (irc) abort(); } while (0)
#define ENQ(q, x) (put1(q, x))
#endif
#if QK == 0 || QK == 1
SZS(M)
static void *S; static dq *D;
static void q_new(void) {
    if (kind == 1) { D = malloc(sizeof *D); memset(D, 0x5a, sizeof *D); Q_DYN(D, req); return; }
#define I(n) if (req == n) { t##n *q = S = malloc(sizeof *q); memset(q, 0x5a, sizeof *q); Q_INIT(q, n); return; }
    SZS(I) abort();
}
static void q_del(void) { if (kind == 1) { Q_DYNFINI(D); free(D); } else free(S); }
static int put1(item x) {
    if (kind == 1) return ENQ(D, x);
#define P(n) if (req == n) { t##n *q = S; return ENQ(q, x); }
    SZS(P) return -1;
}
static int get1(item *o) {
    item x = { 0, 0 }; int r = 0;
    if (kind == 1) { r = DEQ(D, x); *o = x; return r; }
#define G(n) if (req == n) { t##n *q = S; r = DEQ(q, x); *o = x; return r; }
    SZS(G) return -1;
}
static void tell(long *z) {
    if (kind == 1) { z[0] = SIZE(D); z[1] = FULL(D); z[2] = EMPTY(D); return; }
#define T(n) if (req == n) { t##n *q = S; z[0] = SIZE(q); z[1] = FULL(q); z[2] = EMPTY(q); return; }
    SZS(T)
}
#elif QK == 2
#include <stdio.h>
#include "fast/mpmc_bounded_queue.h"
MPMC_QUEUE_TYPE(mq, item);
static mq *Q;
static void q_new(void) { Q = MPMC_QUEUE_NEW(mq, req); }
static void q_del(void) { MPMC_QUEUE_DEL(Q); }
/* kind 1: the waiting variants (never asked to wait here) */
static int put1(item x) { if (kind == 1 && (long)MPMC_QUEUE_SIZE(Q) < cap) { MPMC_QUEUE_ENQ_WAIT(Q, x); return 1; } return MPMC_QUEUE_ENQ(Q, x); }
static int get1(item *o) { item x = { 0, 0 }; int r = 1; if (kind == 1 && MPMC_QUEUE_SIZE(Q) > 0) MPMC_QUEUE_DEQ_WAIT(Q, x); else r = MPMC_QUEUE_DEQ(Q, x); *o = x; return r; }
static void tell(long *z) { z[0] = (int)MPMC_QUEUE_SIZE(Q); z[1] = !!MPMC_QUEUE_FULL_P(Q); z[2] = !!MPMC_QUEUE_EMPTY_P(Q); }
#elif QK == 3
#include "fast/ringbuf.h"
static rte_ring *R;       /* kind: 1 single producer, 2 single consumer, 4 caller's memory; portions of m by bulk (pt 0) or burst (pt 1) calls */
static void q_new(void) {
    unsigned fl = (kind & 1 ? RING_F_SP_ENQ : 0) | (kind & 2 ? RING_F_SC_DEQ : 0);
    if (kind & 4) { size_t sz = rte_ring_size(req), m = sz; void *p = 0; if (posix_memalign(&p, 64, sz)) abort(); R = rte_ring_create_from(req, fl, p, &m); }
    else R = rte_ring_create(req, fl);
    if (!R) abort();
}
static void q_del(void) { if (kind & 4) free(R); else rte_ring_destroy(R); }
static void tell(long *z) { z[0] = rte_ring_count(R); z[1] = !!rte_ring_full(R); z[2] = !!rte_ring_empty(R); if ((long)rte_ring_free_count(R) != cap - z[0]) z[0] = -1; }
#elif QK == 4
SZS(M)
static void *S;
static void q_new(void) {
#define I(n) if (req == n) { t##n *q = S = malloc(sizeof *q); memset(q, 0x5a, sizeof *q); Q_INIT(q, n); return; }
    SZS(I) abort();
}
static void q_del(void) {
#define FI(n) if (req == n) { t##n *q = S; SYNCQ_FINI(q); free(q); return; }
    SZS(FI)
}
/* the calls block: the scripts never ask for more than there is */
static int put1(item x) {
#define P(n) if (req == n) { t##n *q = S; SYNCQ_ENQ(q, x); return 1; }
    SZS(P) return -1;
}
static int get1(item *o) {
#define G(n) if (req == n) { t##n *q = S; *o = SYNCQ_DEQ(q); return 1; }
    SZS(G) return -1;
}
static void tell(long *z) { (void)z; }
#endif
static void vd_begin(void) { kind = vd_int(); req = vd_int(); cap = vd_int(); pt = vd_int(); next_ = 1; q_new(); }
static long runs[64][2]; static int nr;
static void seen(long v) {
    if (nr && runs[nr - 1][0] + runs[nr - 1][1] == v) runs[nr - 1][1]++;
    else if (nr < 64) { runs[nr][0] = v; runs[nr][1] = 1; nr++; }
}
static void vd_op(const char *op) {
    long n = vd_int(), m = vd_int(), r = 0, z[3] = { -2, -2, -2 };
    nr = 0;
    if (vd_is(op, "age")) {     /* 65536 * n - m items pass through the empty queue */
        uint64_t todo = 65536ull * n - m, i = 0, bad = 0;
#if QK == 3
        enum { P = 128 }; void *a[P], *b[P]; unsigned w = cap < P ? cap : P, k;
        for (k = 0; k < w; k++) a[k] = (void *)(long)(k + 77);
        for (; i < todo; i += w) {
            if (todo - i < w) w = todo - i;
            int q = rte_ring_enqueue_bulk(R, a, w), g = rte_ring_dequeue_bulk(R, b, w);
            if ((q != 0 && q != (int)w) || (g != 0 && g != (int)w) || memcmp(a, b, w * sizeof a[0])) { bad++; break; }
        }
#elif QK == 2
        for (; i < todo; i++) { item x = { i, 7 }, y = { 0, 0 }; if (!MPMC_QUEUE_ENQ(Q, x) || !MPMC_QUEUE_DEQ(Q, y) || (uint64_t)y.a != i) { bad++; break; } }
#else
        bad = 1; (void)i; (void)todo;
#endif
        r = bad ? -1 : 0; n = 0;
    }
#if QK == 3
    void **p = malloc((m + 1) * sizeof *p); int k;
    while (n > 0) {
        int w = n < m ? n : m; long q;
        if (vd_is(op, "put")) {
            for (k = 0; k < w; k++) p[k] = (void *)(next_ + k);
            if (w == 1 && !pt) { q = rte_ring_enqueue(R, p[0]); q = q == 0 || q == 1 ? 1 : q < 0 ? 0 : -77; }
            else if (pt) q = rte_ring_enqueue_burst(R, p, w);
            else { q = rte_ring_enqueue_bulk(R, p, w); q = q == 0 || q == w ? w : q < 0 ? 0 : -77; }
            r += q; next_ += q;
        } else {
            if (w == 1 && !pt) { q = rte_ring_dequeue(R, p); q = q == 0 || q == 1 ? 1 : q < 0 ? 0 : -77; }
            else if (pt) q = rte_ring_dequeue_burst(R, p, w);
            else { q = rte_ring_dequeue_bulk(R, p, w); q = q == 0 || q == w ? w : q < 0 ? 0 : -77; }
            for (k = 0; k < q; k++) seen((long)p[k]);
        }
        if (q < w) break;
        n -= q;
    }
    free(p);
#else
    for (; n > 0; n--) {
        if (vd_is(op, "put")) { if (put1(mk()) != 1) break; next_++; r++; }
        else { item x; if (get1(&x) != 1) break; seen(val(x)); }
    }
#endif
    tell(z);
    vd_beg(); vd_ki("r", r); vd_ki("sz", z[0]); vd_ki("f", z[1]); vd_ki("e", z[2]);
    vd_key("runs"); putchar('['); for (int i = 0; i < nr; i++) printf("%s[%ld,%ld]", i ? "," : "", runs[i][0], runs[i][1]); putchar(']'); vd_end();
}
static void vd_finish(void) { q_del(); }
