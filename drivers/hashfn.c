#include "vd.h"
#include "utils/hashfunc.h"
#include "utils/siphash.h"
#define XXH_STATIC_LINKING_ONLY
#include "utils/xxhash.h"
static char k[16];
static siphash24_state *ss; static XXH32_state_t *s3; static XXH64_state_t *s6;
static uint64_t g64(void) { size_t n; long *p = vd_ints(&n); uint64_t x = 0; for (size_t i = 0; i < n; i++) x = x << 16 | (uint64_t)p[i]; free(p); return x; }
static void kw(uint64_t x) { printf("[%d,%d,%d,%d]", (int)(x >> 48), (int)(x >> 32) & 0xffff, (int)(x >> 16) & 0xffff, (int)x & 0xffff); }
static void drop(void) { free(ss); if (s3) XXH32_freeState(s3); if (s6) XXH64_freeState(s6); ss = 0; s3 = 0; s6 = 0; }
static void vd_begin(void) { drop(); strncpy(k, vd_tok(), 15); }
static void vd_finish(void) { drop(); }
static int hash(const char *f, const void *d, size_t n, uint64_t a, uint64_t b, uint64_t *o) {
#define IS(x) (!strcmp(f, x))
    if (IS("fnv32")) { o[0] = fnv_hash(d, n, a); return 1; }
    if (IS("fnv64")) { o[0] = fnv_hash64(d, n, a); return 1; }
    if (IS("fast64")) { o[0] = fasthash64(d, n, a); return 1; }
    if (IS("fast32")) { o[0] = fasthash32(d, n, a); return 1; }
    if (IS("sip")) { uint64_t key[2] = { a, b }; o[0] = siphash24(d, n, key); return 1; }
    if (IS("mm32")) { o[0] = murmur3_hash_32(d, n, a); return 1; }
    if (IS("hsieh")) { o[0] = hsieh_hash(d, n, a); return 1; }
    if (IS("yorikke")) { o[0] = yorrike_hash32(d, n, a); return 1; }
    if (IS("city")) { o[0] = city_hash(d, n, a); return 1; }
    if (IS("xx32")) { o[0] = XXH32(d, n, a); return 1; }
    if (IS("xx64")) { o[0] = XXH64(d, n, a); return 1; }
    uint_128_t r, s; s.v[0] = a; s.v[1] = b;
    if (IS("mm128a")) r = murmur3_hash_128(d, n, a);
    else if (IS("mm128b")) r = murmur3_hash64_128(d, n, a);
    else if (IS("city128")) r = city_hash_128(d, n, s);
    else abort();
    o[0] = r.v[0]; o[1] = r.v[1]; return 2;
}
static void show(uint64_t *o, int m) { vd_key("o"); putchar('['); for (int i = 0; i < m; i++) { if (i) putchar(','); kw(o[i]); } putchar(']'); }
/* exactly n bytes, ending at the end of an allocation whose start has the offset al */
static uint8_t *place(const uint8_t *d, size_t n, int al, uint8_t **base) {
    *base = malloc(n + al + (n + al == 0)); memset(*base, 0xee, al); memcpy(*base + al, d, n); return *base + al;
}
static void vd_op(const char *op) {
    uint64_t o[2] = {0}, p[2] = {0};
    if (vd_is(op, "hash")) {
        char f[16]; { char *t = vd_tok(); strncpy(f, t, 15); f[15] = 0; }
        size_t n; uint8_t *d = vd_bytes(&n, 0), *z, *y; uint64_t a = g64(), b = g64(); int al = vd_int();
        int m = hash(f, place(d, n, al, &z), n, a, b, o);
        hash(f, place(d, n, 0, &y), n, a, b, p);
        int same = !memcmp(o, p, sizeof o) && !memcmp(z + al, d, n);
        vd_beg(); show(o, m); vd_ki("same", same); vd_end(); free(d); free(z); free(y);
    } else if (vd_is(op, "canon")) {
        uint64_t a = g64(); XXH32_canonical_t c3; XXH64_canonical_t c6;
        XXH32_canonicalFromHash(&c3, (uint32_t)a); XXH64_canonicalFromHash(&c6, a);
        vd_beg(); vd_kb("c32", c3.digest, 4); vd_kb("c64", c6.digest, 8);
        vd_k64("b32", XXH32_hashFromCanonical(&c3)); vd_k64("b64", XXH64_hashFromCanonical(&c6)); vd_end();
    } else if (vd_is(op, "init")) {
        uint64_t a = g64(), b = g64(), key[2] = { a, b }; int r = 0;
        if (!strcmp(k, "sip")) { if (!ss) { ss = malloc(sizeof *ss); memset(ss, 0xaa, sizeof *ss); } siphash24_init(ss, key); }
        else if (!strcmp(k, "xx32")) { if (!s3) s3 = XXH32_createState(); r = XXH32_reset(s3, (uint32_t)a); }
        else { if (!s6) s6 = XXH64_createState(); r = XXH64_reset(s6, a); }
        vd_r(r);
    } else if (vd_is(op, "upd")) {
        size_t n; uint8_t *d = vd_bytes(&n, 0), *z, *q; int al = vd_int(), r = 0; q = place(d, n, al, &z);
        if (ss) siphash24_update(ss, q, n); else if (s3) r = XXH32_update(s3, q, n); else r = XXH64_update(s6, q, n);
        memset(z, 0x55, n + al); free(z); free(d); vd_r(r);
    } else {
        o[0] = ss ? siphash24_finish(ss) : s3 ? XXH32_digest(s3) : XXH64_digest(s6);
        vd_beg(); show(o, 1); vd_end();
    }
}
