#include "cq.h"
#include <assert.h>
#include "utils/new.h"
#include "utils/utils.h"
#include "fast/ringbuf.h"
static rte_ring *R;
/* KIND: 1 single producer, 2 single consumer, 4 caller's memory, 8 explicit sp/mp/sc/mc entry points; CAP: size - 1 */
static void q_new(void) {
    unsigned fl = (KIND & 1 ? RING_F_SP_ENQ : 0) | (KIND & 2 ? RING_F_SC_DEQ : 0), cnt = KIND >> 8 ? KIND >> 8 : CAP + 1;
    if (KIND & 4) {
        size_t sz = rte_ring_size(CAP + 1), m = sz; void *p = 0;
        posix_memalign(&p, 64, sz);
        R = rte_ring_create_from(cnt, fl, p, &m);
        if (!R || m != 0) vs_note_quiet("{\"k\":\"b\",\"op\":\"create_from\"}");
    } else R = rte_ring_create(cnt, fl);
}
static void q_del(void) { if (!(KIND & 4)) rte_ring_destroy(R); }
static long q_op(char op, const long *a, int n, long *v, int *nv) {
    void *p[16] = { 0 }; long r = 0; int sp = KIND & 1, sc = KIND & 2, ex = KIND & 8;
    for (int i = 0; i < n; i++) p[i] = (void *)a[i];
    switch (op) {
    case 'e': r = ex ? (sp ? rte_ring_sp_enqueue(R, p[0]) : rte_ring_mp_enqueue(R, p[0])) : rte_ring_enqueue(R, p[0]);
              return r == 0 || r == 1 ? 1 : r < 0 ? 0 : -77;
    case 'B': r = ex ? (sp ? rte_ring_sp_enqueue_bulk(R, p, n) : rte_ring_mp_enqueue_bulk(R, p, n)) : rte_ring_enqueue_bulk(R, p, n);
              return r == 0 || r == n ? n : r < 0 ? 0 : -77;
    case 'b': return ex ? (sp ? rte_ring_sp_enqueue_burst(R, p, n) : rte_ring_mp_enqueue_burst(R, p, n)) : rte_ring_enqueue_burst(R, p, n);
    case 'd': r = ex ? (sc ? rte_ring_sc_dequeue(R, p) : rte_ring_mc_dequeue(R, p)) : rte_ring_dequeue(R, p);
              if (r >= 0) { v[0] = (long)p[0]; *nv = 1; }
              return r == 0 || r == 1 ? 1 : r < 0 ? 0 : -77;
    case 'X': r = ex ? (sc ? rte_ring_sc_dequeue_bulk(R, p, a[0]) : rte_ring_mc_dequeue_bulk(R, p, a[0])) : rte_ring_dequeue_bulk(R, p, a[0]);
              if (r >= 0) for (*nv = 0; *nv < a[0]; ++*nv) v[*nv] = (long)p[*nv];
              return r == 0 || r == a[0] ? a[0] : r < 0 ? 0 : -77;
    case 'x': r = ex ? (sc ? rte_ring_sc_dequeue_burst(R, p, a[0]) : rte_ring_mc_dequeue_burst(R, p, a[0])) : rte_ring_dequeue_burst(R, p, a[0]);
              for (*nv = 0; *nv < r && *nv < 16; ++*nv) v[*nv] = (long)p[*nv];
              return r;
    case 'q': v[0] = rte_ring_count(R); v[1] = !!rte_ring_full(R); v[2] = !!rte_ring_empty(R); *nv = 3;
              if (rte_ring_free_count(R) + rte_ring_count(R) != CAP) v[0] = -1;
              return 0;
    }
    return r;
}
static const char *q_name(char op) {
    switch (op) { case 'e': case 'B': return "enqb"; case 'b': return "enqv"; case 'd': case 'X': return "deqb"; case 'x': return "deqv"; }
    return "query";
}
