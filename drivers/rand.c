#include "vd.h"
#include "utils/splitmix.h"
#include "utils/xorshift-rand.h"
#include "utils/xoroshiro.h"
#include "utils/romu-rand.h"
extern double frand(void);
static uint64_t ctr, given; static int ent, use;
/* entropy: known words, all different */
int __wrap_getentropy(void *p, size_t n) {
    for (size_t i = 0; i < n; i++) { if (i % 8 == 0) ctr += 0x9e3779b97f4a7c15ull; ((uint8_t*)p)[i] = (uint8_t)(ctr >> (8 * (i % 8))); }
    if (use) memcpy(p, &given, n < 8 ? n : 8);
    ent += (n + 7) / 8; errno = 0; return 0;
}
static char g[16];
static union { uint64_t x; xs64star a; xs128plus b; xs1024star c; xoro128plus d; romu r; } u, v;
static uint64_t g64(void) { size_t n; long *p = vd_ints(&n); uint64_t x = 0; for (size_t i = 0; i < n; i++) x = x << 16 | (uint64_t)p[i]; free(p); return x; }
static void vd_begin(void) { strncpy(g, vd_tok(), 15); memset(&u, 0xa5, sizeof u); ctr = 0; }
static void vd_finish(void) {}
static int is(const char *s) { return !strcmp(g, s); }
static void seed(void *z, uint64_t a, uint64_t b) {
    if (is("split")) *(uint64_t*)z = a;
    else if (is("xs64")) xs64star_init(z, a);
    else if (is("xs128")) xs128plus_init(z, a);
    else if (is("xs1024")) xs1024star_init(z, a);
    else if (is("xoro")) xoro128plus_init(z, a);
    else if (is("quad")) romu_quad_init(z, a, b);
    else if (is("trio")) romu_trio_init(z, a, b);
    else if (is("duo")) romu_duo_init(z, a);
}
static int words(uint64_t *w, void *z) {
    romu *r = z;
    if (is("xs128")) { xs128plus *x = z; w[0] = x->v[0]; w[1] = x->v[1]; return 2; }
    if (is("xs1024")) { xs1024star *x = z; for (int i = 0; i < 16; i++) w[i] = x->v[i]; w[16] = x->p; return 17; }
    if (is("xoro")) { xoro128plus *x = z; w[0] = x->v0; w[1] = x->v1; return 2; }
    if (is("quad")) { w[0] = r->w; w[1] = r->x; w[2] = r->y; w[3] = r->z; return 4; }
    if (is("trio")) { w[0] = r->x; w[1] = r->y; w[2] = r->z; return 3; }
    if (is("duo")) { w[0] = r->x; w[1] = r->y; return 2; }
    w[0] = *(uint64_t*)z; return 1;
}
static int rng;
static uint64_t next(void) {
    if (is("split")) return splitmix64(&u.x);
    if (is("xs64")) return xs64star_u64(&u.a);
    if (is("xs128")) return xs128plus_u64(&u.b);
    if (is("xs1024")) return xs1024star_u64(&u.c);
    if (is("xoro")) return xoro128plus_u64(&u.d);
    if (is("quad")) return romu_quad(&u.r);
    if (is("trio")) return romu_trio(&u.r);
    if (is("duo")) return romu_duo(&u.r);
    double d = frand();
    if (!(d >= 0.0 && d < 1.0)) { rng = 0; return 0; }
    double m = d * 4503599627370496.0; uint64_t k = (uint64_t)m;
    if ((double)k != m) rng = 0;
    return k;
}
static void kw(uint64_t x) { printf("[%d,%d,%d,%d]", (int)(x >> 48), (int)(x >> 32) & 0xffff, (int)(x >> 16) & 0xffff, (int)x & 0xffff); }
static void vd_op(const char *op) {
    uint64_t w[17], y[17];
    ent = 0; rng = 1;
    if (vd_is(op, "seed")) {
        uint64_t a = g64(), b = g64();
        seed(&u, a, b);
        int k = words(w, &u), e = ent, fresh = 1;
        if (e) { memset(&v, 0, sizeof v); seed(&v, a, b); words(y, &v); fresh = memcmp(w, y, k * 8) != 0; }
        vd_beg(); vd_ki("ent", e); vd_ki("fresh", fresh); vd_key("st"); putchar('[');
        for (int i = 0; i < k; i++) { if (i) putchar(','); kw(w[i]); }
        putchar(']'); vd_end();
    } else if (vd_is(op, "first")) {
        /* frand seeds itself once in a process, from this word */
        given = g64(); use = 1;
        uint64_t o = next();
        vd_beg(); vd_k64("o", o); vd_ki("ent", ent); vd_ki("rng", rng); vd_end();
    } else {
        long n = vd_int(); uint64_t o = 0;
        for (long i = 0; i < n; i++) o = next();
        vd_beg(); vd_k64("o", o); vd_ki("rng", rng); vd_end();
    }
}
