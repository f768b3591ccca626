#include "vd.h"
#include "utils/bloom.h"
#include "bloom_internal.h"
static uint64_t rs; static Bloom *B, BS; static int own;
int getentropy(void *p, size_t n) { unsigned char *b = (unsigned char*)p; while (n--) { rs = rs * 6364136223846793005ULL + 1442695040888963407ULL; *b++ = rs >> 56; } return 0; }
static uint64_t val(long x) { return x == 0 ? 0 : x == 1 ? ~(uint64_t)0 : (uint64_t)x * 0x9e3779b97f4a7c15ULL; }
static const double E[] = { .5, .3, .1, .01, .001, 1e-6, .9 };
static void vd_begin(void) {
    int t = vd_int(); uint64_t n = vd_u64(); double e = E[vd_int()]; rs = vd_u64() * 104729 + 5; own = rs & 64;
    if (own) B = t == 0 ? Counting_bloom_new(n, e) : Standard_bloom_new(n, e, t == 2);
    else { memset(&BS, 0x33, sizeof BS); B = t == 0 ? Counting_bloom_init(&BS, n, e) : Standard_bloom_init(&BS, n, e, t == 2); }
    if (!B) abort();
}
static uint32_t dg(uint32_t h, const bloom *f) { for (uint64_t i = 0; i < f->bmsize; i++) h = (h ^ f->bitmap[i]) * 16777619u; return (h ^ (uint32_t)f->size) * 16777619u; }
/* the element count as the filter describes itself */
static long elems(void) {
    static char buf[1 << 16]; long s = 0; Bloom_desc(B, buf, sizeof buf);
    for (char *p = buf; (p = strstr(p, " elem")); p++) { char *q = p; while (q > buf && q[-1] >= '0' && q[-1] <= '9') q--; s += strtol(q, 0, 10); }
    return s;
}
static void vd_op(const char *op) {
    uint64_t v = val(vd_int()); int f = !!Bloom_find(B, v), r = -9;
    if (vd_is(op, "add")) { Bloom_probe(B, v); r = !!Bloom_find(B, v); }
    else if (vd_is(op, "find")) r = !!Bloom_find(B, v);
    else if (vd_is(op, "rem")) r = !!Bloom_remove(B, v);
    else if (vd_is(op, "remabs")) r = f ? 0 : !!Bloom_remove(B, v);
    uint32_t h = 2166136261u;
    if (B->typ == BLOOM_TYPE_SCALE) { scalable_bloom *s = (scalable_bloom*)B->filter; for (uint32_t i = 0; i < s->len; i++) h = dg(h, &s->bfa[i]); }
    else h = dg(h, (bloom*)B->filter);
    if (vd_is(op, "add")) f = 1 & (f | r);
    vd_beg(); vd_ki("r", r); vd_ki("f", f); vd_ki("n", elems()); vd_ki("dig", h & 0x3fffffff); vd_end();
}
static void vd_finish(void) { if (own) Bloom_delete(B); else Bloom_fini(B); }
