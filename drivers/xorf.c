#include "vd.h"
#include "utils/xorfilter.h"
static uint64_t rs; static Xorfilter *X; static int W, KM;
int getentropy(void *p, size_t n) { unsigned char *b = (unsigned char*)p; while (n--) { rs = rs * 6364136223846793005ULL + 1442695040888963407ULL; *b++ = rs >> 56; } return 0; }
static uint64_t key(long i) { return KM == 0 ? (uint64_t)i : KM == 1 ? (uint64_t)i * 0x9e3779b97f4a7c15ULL : (uint64_t)i << 40; }
static void vd_begin(void) { W = vd_int(); KM = vd_int(); rs = vd_u64() * 15485863 + 3; X = 0; }
static Xorfilter *mk(uint64_t *k, size_t n) { Xorfilter *x = W == 8 ? Xorfilter_new8(k, n) : Xorfilter_new16(k, n); memset(k, 0xee, n * 8); free(k); return x; }
static long N;
static void vd_op(const char *op) {
    long r = -1;
    if (vd_is(op, "build")) { size_t n; long *l = vd_ints(&n); uint64_t *k = (uint64_t*)malloc(n * 8); for (size_t i = 0; i < n; i++) k[i] = key(l[i]); free(l);
        if (X) Xorfilter_delete(X); X = mk(k, n); r = X != 0; }
    else if (vd_is(op, "buildn")) { N = vd_int(); uint64_t *k = (uint64_t*)malloc(N * 8); for (long i = 0; i < N; i++) k[i] = key(i); if (X) Xorfilter_delete(X); X = mk(k, N); r = X != 0; }
    else if (vd_is(op, "find")) { uint64_t k = key(vd_int()); r = !!Xorfilter_contains(X, k); if (!!Xorfilter_contains(X, k) != r) r = -2; }
    else if (vd_is(op, "findn")) { r = 0; for (long i = 0; i < N; i++) r += !!Xorfilter_contains(X, key(i)); }
    vd_r(r);
}
static void vd_finish(void) { if (X) Xorfilter_delete(X); }
