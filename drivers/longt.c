/* Large sets in the hash tables (TK 0 hashtab, 1 fast-ht) and Bloom filters (TK 2), pools and arenas (TK 3). */
#include "vd.h"
#if TK == 0
#include "utils/hashtab.h"
#elif TK == 1
#include "utils/fast-ht.h"
#elif TK == 2
#include "utils/bloom.h"
#else
#include "utils/mempool.h"
#include "utils/arena.h"
#endif
static long nlive; static char kind[16]; static long cx, cy; static uint64_t rs;
static unsigned char *seen; static long nseen; static long dead;
#define MAXK 400000
static void runs(void) { vd_key("runs"); putchar('['); int first = 1; for (long i = 0; i < MAXK; i++) if (seen[i]) { long j = i; while (j < MAXK && seen[j]) j++; printf(first ? "[%ld,%ld]" : ",[%ld,%ld]", i, j - i); first = 0; i = j; } putchar(']'); }
static void meet(long k) { if (k < 0 || k >= MAXK || seen[k]) { fprintf(stderr, "met key %ld twice\n", k); nseen = -1000000000; return; } seen[k] = 1; nseen++; }
#if TK == 0
static hash_table_t T; static int *items; static int salt;
uint32_t arc4random(void) { return 0x9e3779b1u * (unsigned)++salt; }
static uint32_t hf(const void *p) { return (uint32_t)*(const int*)p * (cy ? 2654435761u : 1u); }
static int cmp(const void *a, const void *b) { int x = *(const int*)a, y = *(const int*)b; return (x > y) - (x < y); }
static void dtor(void *p) { dead++; }
static int pred(void *c, const void *p) { return *(const int*)p % 2 == (int)(long)c; }
static void *al(void *c, size_t n) { nlive++; return malloc(n); }
static void fr(void *c, void *p) { if (p) nlive--; free(p); }
static void app(void *c, const void *p) { meet(*(const int*)p); }
static long cnt(void) { hash_table_stat st; if (!T) return 0; hash_table_stats(T, &st); return st.nodes; }
static void start(void) {
    items = malloc(MAXK * sizeof *items); for (int i = 0; i < MAXK; i++) items[i] = i;
    hash_table_policy tr; memset(&tr, 0, sizeof tr); tr.hash = hf; tr.cmp = cmp; tr.dtor = dtor; tr.logsize = cx; tr.fillmax = 0;
    memmgr_init(&tr.mem, al, fr, 0); nlive = 0; lockmgr_new_empty(&tr.lock);
    if (hash_table_new(&T, &tr) != 0) abort();
}
static int add(long k) { void *o = 0; if (hash_table_lookup(T, &items[k], &o) == 1) { if (o != &items[k] || hash_table_insert(T, &items[k]) == 0) return -100000; return 0; }
    return k & 1 ? hash_table_insert(T, &items[k]) == 0 : hash_table_probe(T, &items[k]) == &items[k]; }
static int del(long k) { void *o = 0; int r = hash_table_remove(T, &items[k], &o); if ((r == 0) != (o != 0) || (o && o != &items[k])) return -100000; return r == 0; }
static int has(long k) { void *o = 0; int r = hash_table_lookup(T, &items[k], &o); if ((r == 1) != (o == &items[k])) return -100000; return r == 1; }
static void stop(void) { if (T) hash_table_delete(T); T = 0; free(items); items = 0; }
#elif TK == 1
static ht *H;
int getentropy(void *p, size_t n) { unsigned char *b = (unsigned char*)p; while (n--) { rs = rs * 6364136223846793005ULL + 1442695040888963407ULL; *b++ = rs >> 56; } return 0; }
static uint64_t key(long k) { return cy == 0 ? (uint64_t)k : cy == 1 ? (uint64_t)k << 40 | 7 : (uint64_t)k * 0x9e3779b97f4a7c15ULL; }
static long cnt(void) { return H ? (long)H->nodes : 0; }
static void start(void) { H = ht_new(cx, 0); }
static int add(long k) { void *r = ht_probe(H, key(k), (void*)(k + 1)); if (r && r != (void*)(k + 1)) return -100000; return r == 0; }
static int del(long k) { void *o = 0; int r = ht_remove(H, key(k), &o); if (r && o != (void*)(k + 1)) return -100000; return !!r; }
static int has(long k) { void *o = 0; int r = ht_find(H, key(k), &o); if (r && o != (void*)(k + 1)) return -100000; return !!r; }
static void stop(void) { if (H) ht_del(H); H = 0; }
#elif TK == 2
static Bloom *B; static long nel;
int getentropy(void *p, size_t n) { unsigned char *b = (unsigned char*)p; while (n--) { rs = rs * 6364136223846793005ULL + 1442695040888963407ULL; *b++ = rs >> 56; } return 0; }
static const double E[] = { .5, .3, .1, .01, .001 };
static uint64_t key(long k) { return (uint64_t)(k + 1) * 0x9e3779b97f4a7c15ULL; }
static long cnt(void) {
    static char buf[1 << 16]; long s = 0; if (!B) return 0; Bloom_desc(B, buf, sizeof buf);
    for (char *p = buf; (p = strstr(p, " elem")); p++) { char *q = p; while (q > buf && q[-1] >= '0' && q[-1] <= '9') q--; s += strtol(q, 0, 10); }
    return s;
}
static void start(void) { B = *kind == 'c' ? Counting_bloom_new(cx, E[cy]) : Standard_bloom_new(cx, E[cy], vd_is(kind, "scale")); if (!B) abort(); }
static int add(long k) { Bloom_probe(B, key(k)); return !!Bloom_find(B, key(k)); }
static int del(long k) { return !!Bloom_remove(B, key(k)); }
static int has(long k) { return !!Bloom_find(B, key(k)); }
static void stop(void) { if (B) Bloom_delete(B); B = 0; }
#else
/* x: limit (pool), blocks wanted (mem), block size (arena); y: bytes of a block, or the largest request of an arena */
static mempool *P; static arena_t A; static uint8_t **L; static uint8_t *mem; static long nl; static uint64_t unit;
static void *al(void *c, size_t n) { nlive++; return malloc(n); }
static void fr(void *c, void *p) { if (p) nlive--; free(p); }
static size_t size(long k) { return *kind != 'a' ? (size_t)cy : k % 1000 == 7 ? (size_t)cy : (size_t)(k * 7 % (cy < 200 ? cy + 1 : 200)); }
static uint8_t val(long k, size_t j) { return (uint8_t)(k * 37 + k / 256 * 11 + j); }
static long cnt(void) { return nl; }
static void start(void) {
    L = calloc(MAXK, sizeof *L); nl = nlive = 0; P = 0; A = 0; mem = 0; memmgr t; memmgr_init(&t, al, fr, 0);
    static const unsigned U[] = { 0, 1, 7, 300, 5000, 70000 }; unit = U[rs % 6];
    int e = 0;
    if (*kind == 'p') e = mempool_new(&P, &t, cy, cx, unit);
    else if (*kind == 'm') { size_t b = cy < 16 ? 16 : (cy + 7) / 8 * 8, n = cx * b + 400; mem = malloc(n); memset(mem, 0xa5, n); e = mempool_new_from_mem(&P, cy, mem, n); }
    else e = arena_new(&A, cx);
    if (e != 0) abort();
    if (P && *kind == 'p' && mempool_total_blocks(P) != (unsigned)cx) abort();
    if (P && *kind == 'm' && mempool_total_blocks(P) < (unsigned)cx) { fprintf(stderr, "room for %u blocks only\n", mempool_total_blocks(P)); exit(3); }
}
static int has(long k) { if (!L[k]) return 0; size_t n = size(k); for (size_t j = 0; j < n; j++) if (L[k][j] != val(k, j)) return -100000; return 1; }
static int add(long k) {
    if (L[k]) return -100000;
    size_t n = size(k); uint8_t *p;
    if (A && n && rs & 32 && (k % 5 == 0 || k % 2000 == 7)) {           /* a string of n - 1 bytes, then overwritten */
        char *s = malloc(n); memset(s, 'x', n); s[n - 1] = 0; p = (uint8_t *)arena_strdup(A, s); if (memcmp(p, s, n)) return -100000; free(s);
    } else p = A ? arena_alloc(A, n) : mempool_alloc(P);
    if (!p) return 0; if ((uintptr_t)p % 8) return -100000;
    L[k] = p; for (size_t j = 0; j < n; j++) p[j] = val(k, j); nl++; return 1;
}
static int del(long k) { int r = has(k); if (r == 1) { mempool_free(P, L[k]); L[k] = 0; nl--; } return r; }
static void stop(void) { if (A) arena_delete(A); if (P) mempool_delete(P); free(L); free(mem); mem = 0; L = 0; A = 0; P = 0; nl = 0; }
#endif
static void vd_begin(void) { strncpy(kind, vd_tok(), 15); cx = vd_int(); cy = vd_int(); rs = vd_u64() * 7919 + 1; if (!seen) seen = malloc(MAXK); start(); }
static void vd_op(const char *op) {
    long a = vd_int(), b = vd_int(), r = 0; memset(seen, 0, MAXK); nseen = 0; dead = 0;
    if (vd_is(op, "fill")) for (long k = a; k <= b; k++) r += add(k);
    else if (vd_is(op, "drop")) for (long k = a; k <= b; k++) r += del(k);
    else if (vd_is(op, "look")) for (long k = a; k <= b; k++) r += has(k);
#if TK == 0
    else if (vd_is(op, "half")) r = hash_table_remove_if(T, pred, (void*)a);
    else if (vd_is(op, "each")) {
        if (a == 2) hash_table_apply(T, app, 0);
        else {
            hash_table_iter_t i; long last = -1; if (hash_table_iter_new(&i, T, (int)a) != 0) abort();
            for (hash_table_iter_first(i);;) { int *p = hash_table_iter_item(i); if (!p || nseen < 0 || nseen > MAXK) break; if (a == 1 && *p <= last) nseen = -1000000000; last = *p; meet(*p); hash_table_iter_next(i); }
            hash_table_iter_delete(i);
        }
        r = nseen;
    }
#endif
    else if (vd_is(op, "end")) { stop(); r = nlive; }
    else abort();
    vd_beg(); vd_ki("r", r); vd_ki("n", cnt()); vd_ki("dead", dead); runs(); vd_end();
}
static void vd_finish(void) { stop(); }
