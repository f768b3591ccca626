/* locked hash table; CAP = hash modulus, KIND = fill limit */
#include "cq.h"
#include <stdint.h>
#include "utils/hashtab.h"
static hash_table_t T;
static int items[1800];
static long dead[VS_MAXT][64]; static int ndead[VS_MAXT];
uint32_t arc4random(void) { return 0x9e3779b1u; }
static int deny[VS_MAXT];   /* per thread: 1 no memory at all, 2 no new bucket array */
VS_NOTSAN static void *al(void *c, size_t n) { int d = vs_self() >= 0 ? deny[vs_self()] : 0; return d == 1 || (d == 2 && n > 64) ? 0 : malloc(n); }
VS_NOTSAN static void fr(void *c, void *p) { free(p); }
VS_NOTSAN static uint32_t hf(const void *p) { return (uint32_t)((*(const int*)p / 100) % CAP); }
VS_NOTSAN static int cmp(const void *a, const void *b) { return *(const int*)a / 100 - *(const int*)b / 100; }
VS_NOTSAN static void dtor(void *p) { int t = vs_self(); dead[t][ndead[t]++] = *(int*)p; }
VS_NOTSAN static int pred(void *c, const void *p) { return *(const int*)p % 2 == (int)(long)c; }
static void q_new(void) {
    for (int i = 0; i < 1800; i++) items[i] = i;
    memset(ndead, 0, sizeof ndead);
    hash_table_policy tr; memset(&tr, 0, sizeof tr);
    tr.hash = hf; tr.cmp = cmp; tr.dtor = dtor; tr.fillmax = KIND; tr.logsize = 1;
    memmgr_init(&tr.mem, al, fr, 0); memset(deny, 0, sizeof deny); tr.lock = Mutex_locker;
    if (hash_table_new(&T, &tr) != 0) abort();
}
static void q_del(void) { hash_table_delete(T); }
VS_NOTSAN static int lc(const void *a, const void *b) { long x = *(long*)a, y = *(long*)b; return (x > y) - (x < y); }
typedef struct { long *v; int *n; } acc;
VS_NOTSAN static void app(void *c, const void *p) { acc *x = c; x->v[(*x->n)++] = *(const int*)p; }
VS_NOTSAN static int val(void *p) { return p ? *(int*)p : 0; }
static long q_op(char op, const long *a, int n, long *v, int *nv) {
    int *it = &items[a[0] * 100 + (n > 1 ? a[1] : 0)]; void *o = 0; long r = 0; int t = vs_self();
    ndead[t] = 0;
    deny[t] = strchr("IPC", op) ? 1 : op == 'G' ? 2 : 0;
    switch (op) {
    case 'i': case 'I': case 'G': r = hash_table_insert(T, it); break;
    case 'p': case 'P': r = val(hash_table_probe(T, it)); break;
    case 'c': case 'C': r = hash_table_replace(T, it); break;
    case 'l': r = hash_table_lookup(T, it, &o); if (o) v[(*nv)++] = val(o); break;
    case 'x': r = hash_table_remove(T, it, &o); if (o) v[(*nv)++] = val(o); break;
    case 'f': r = hash_table_remove_if(T, pred, (void*)a[0]); break;
    case 'a': { acc c = { v, nv }; hash_table_apply(T, app, &c); qsort(v, *nv, sizeof *v, lc); break; }
    case 's': { hash_table_stat st; hash_table_stats(T, &st); r = (long)st.nodes; break; }
    case 'o': { hash_table_iter_t i; if (hash_table_iter_new(&i, T, 1)) abort();
                if (hash_table_iter_first(i) == 0) for (void *q; (q = hash_table_iter_item(i)); ) { v[(*nv)++] = val(q); if (hash_table_iter_next(i)) break; }
                r = *nv; hash_table_iter_delete(i); break; }
    }
    deny[t] = 0;
    qsort(dead[t], ndead[t], sizeof(long), lc);
    for (int k = 0; k < ndead[t]; k++) v[(*nv)++] = dead[t][k];
    return r;
}
static const char *q_name(char op) {
    switch (op) { case 'I': return "insf"; case 'P': return "probef"; case 'C': return "repf"; case 'G': return "insg"; case 'i': return "ins"; case 'p': return "probe"; case 'c': return "rep"; case 'l': return "look"; case 'x': return "rem";
    case 'f': return "remif"; case 'a': return "apply"; case 's': return "stats"; default: return "sorted"; }
}
