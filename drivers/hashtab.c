#include "vd.h"
#include "utils/hashtab.h"
static hash_table_t T; static int HM, salt;
static int items[100000]; static long dead[4096]; static int ndead; static long live;
uint32_t arc4random(void) { return 0x9e3779b1u * (unsigned)++salt; }
static uint32_t hf(const void *p) { uint32_t k = (uint32_t)(*(const int*)p / 100); return (k % HM) * (HM > 1000 ? 2654435761u : 1); }
static int cmp(const void *a, const void *b) { return *(const int*)a / 100 - *(const int*)b / 100; }
static void dtor(void *p) { dead[ndead++] = *(int*)p; }
static int pred(void *c, const void *p) { return *(const int*)p % 2 == (int)(long)c; }
static int deny, biggest, budget;  /* deny 1: requests after the first `budget`, 2: bucket arrays */
static void *al(void *c, size_t n) {
    if (deny == 1 && budget-- <= 0) return 0;
    if (deny == 2 && (int)n > biggest) return 0;
    live++; return malloc(n); }
static void fr(void *c, void *p) { if (p) live--; free(p); }
static int lc(const void *a, const void *b) { long x = *(long*)a, y = *(long*)b; return (x > y) - (x < y); }
static long v[4096]; static int nv;
static void app(void *c, const void *p) { v[nv++] = *(const int*)p; }
static int val(void *p) { return p ? *(int*)p : 0; }
static void vd_begin(void) {
    for (int i = 0; i < 100000; i++) items[i] = i;
    HM = vd_int();
    hash_table_policy tr; memset(&tr, 0, sizeof tr);
    tr.hash = hf; tr.cmp = cmp; tr.dtor = dtor; tr.logsize = vd_int(); tr.fillmax = vd_int();
    memmgr_init(&tr.mem, al, fr, 0); live = 0; deny = 0;
    lockmgr_new_empty(&tr.lock);
    if (hash_table_new(&T, &tr) != 0) abort();
}
static int walk(hash_table_iter_t it, int limit) {
    int k = 0;
    int e = hash_table_iter_first(it);
    while (k < limit) {
        void *q = hash_table_iter_item(it);
        if (!q) break;
        if (k < 4000) v[k] = val(q);
        k++;
        e = hash_table_iter_next(it);
        if ((e == 0) != (hash_table_iter_item(it) != 0)) return -1;
    }
    /* past the end: stays at the end */
    if (limit == 4000) { hash_table_iter_next(it); if (hash_table_iter_item(it)) return -2; }
    return k;
}
static void vd_op(const char *op) {
    long k = vd_int(), x = (!strncmp(op, "ins", 3) || !strncmp(op, "probe", 5) || !strncmp(op, "rep", 3)) ? vd_int() : 0, r = 0; void *o = 0;
    int *it = &items[k * 100 + x];
    ndead = nv = 0; hash_table_stat s0; hash_table_stats(T, &s0); long sl[9]; int ns = 0;
    if (op[strlen(op) - 1] == 'f' && !vd_is(op, "remif")) deny = 1, budget = 0;
    if (op[strlen(op) - 1] == 'g') deny = 2, biggest = 64;  /* a node fits, a bucket array does not */
    if (vd_is(op, "insf") || vd_is(op, "insg")) r = hash_table_insert(T, it);
    else if (vd_is(op, "probef") || vd_is(op, "probeg")) r = val(hash_table_probe(T, it));
    else if (vd_is(op, "repf") || vd_is(op, "repg")) r = hash_table_replace(T, it);
    else if (vd_is(op, "newf")) {
        hash_table_t t2 = 0; hash_table_policy tr; memset(&tr, 0, sizeof tr); long l0 = live;
        tr.hash = hf; tr.cmp = cmp; tr.dtor = dtor; tr.logsize = 2; memmgr_init(&tr.mem, al, fr, 0); lockmgr_new_empty(&tr.lock);
        budget = k; r = hash_table_new(&t2, &tr);
        if (live != l0) r = -96;
    } else if (vd_is(op, "iterf")) {
        hash_table_iter_t i; long l0 = live, n;
        hash_table_stat st; hash_table_stats(T, &st); n = st.nodes;
        for (int s = 0; s < 3 && (!s || r == -ENOMEM); s++)       /* any, sorted, bucket */
            for (budget = 0; budget < (s == 1 && n ? 2 : 1) && (r == -ENOMEM || !r); budget++) {
                int b0 = budget;
                r = s < 2 ? hash_table_iter_new(&i, T, s) : hash_table_bucket_iter_new(&i, T, it);
                budget = b0;
                if (live != l0) r = -96;
            }
    }
    else if (vd_is(op, "ins")) r = hash_table_insert(T, it);
    else if (vd_is(op, "probe")) r = val(hash_table_probe(T, it));
    else if (vd_is(op, "rep")) r = hash_table_replace(T, it);
    else if (vd_is(op, "look")) { r = hash_table_lookup(T, it, &o); if (o) v[nv++] = val(o); if (hash_table_lookup(T, it, 0) != r) r = -99; }
    else if (vd_is(op, "rem")) { r = hash_table_remove(T, it, &o); if (o) v[nv++] = val(o); }
    else if (vd_is(op, "remif")) r = hash_table_remove_if(T, pred, (void*)k);
    else if (vd_is(op, "apply")) { hash_table_apply(T, app, 0); qsort(v, nv, sizeof *v, lc); }
    else if (vd_is(op, "iter") || vd_is(op, "sorted") || vd_is(op, "bucket")) {
        hash_table_iter_t i; int b = *op == 'b', l0 = live;
        r = b ? hash_table_bucket_iter_new(&i, T, it) : hash_table_iter_new(&i, T, *op == 's');
        if (r == 0) {
            walk(i, 1);                         /* partial walk, then restart */
            r = walk(i, 4000);
            if (r >= 0) { nv = r; long first[4096]; memcpy(first, v, nv * sizeof *v);
                if (walk(i, 4000) != r || memcmp(first, v, nv * sizeof *v)) r = -98; }
            hash_table_iter_delete(i);
            if (live != l0) r = -97;
            if (*op == 'i') qsort(v, nv, sizeof *v, lc);
        }
    }
    deny = 0;
    long n = 0;
    if (vd_is(op, "delete")) { hash_table_delete(T); T = 0; r = live; }
    else { hash_table_stat st; hash_table_stats(T, &st); n = st.nodes;
        long d[] = { st.inserts - s0.inserts, st.lookups - s0.lookups, st.failed_lookups - s0.failed_lookups, st.replaces - s0.replaces, st.deletes - s0.deletes,
            st.splits, st.size, st.fill, st.maxchainlen };
        ns = 9; memcpy(sl, d, sizeof d); }
    qsort(dead, ndead, sizeof *dead, lc);
    vd_beg(); vd_ki("r", r); vd_kl("v", v, nv); vd_kl("d", dead, ndead); vd_ki("n", n); vd_kl("st", sl, ns); vd_end();
}
static void vd_finish(void) { if (T) hash_table_delete(T); }
