#include "vd.h"
#include "utils/fast-ht.h"
static ht *H, HS; static int KM; static uint64_t rs;
int getentropy(void *p, size_t n) { unsigned char *b = (unsigned char*)p; while (n--) { rs = rs * 6364136223846793005ULL + 1442695040888963407ULL; *b++ = rs >> 56; } return 0; }
static uint64_t key(long k) {
    switch (KM) { case 1: return ((uint64_t)k << 8) | 7; case 2: return (uint64_t)k << 8; case 3: return (uint64_t)k * 0x9e3779b97f4a7c15ULL;
    case 4: return ((uint64_t)k << 40) | 0xff;
    case 5: return (uint64_t)k << 32; case 6: return (uint64_t)k << 48; case 7: return ~(uint64_t)k;
    case 8: { uint64_t z = 0; for (int i = 0; i < 64; i++) if ((uint64_t)k >> i & 1) z |= 1ull << (63 - i); return z; }
    case 9: return (uint64_t)(k + 1) / 2 << (k & 1 ? 32 : 0);
    default: return k; }
}
static void vd_begin(void) {
    unsigned sz = vd_int(), mf = vd_int(); KM = vd_int(); rs = vd_u64() * 7919 + 1;
    H = (rs >> 3) & 1 ? ht_new(sz, mf) : ht_init(&HS, sz, mf);
}
static void vd_op(const char *op) {
    long k = vd_int(); void *o = 0; long r = -1;
    if (vd_is(op, "probe")) r = (long)ht_probe(H, key(k), (void*)vd_int());
    else if (vd_is(op, "rep")) r = ht_replace(H, key(k), (void*)vd_int());
    else if (vd_is(op, "find")) { r = ht_find(H, key(k), &o); if (ht_find(H, key(k), 0) != r) r = -99; }
    else if (vd_is(op, "rem")) r = ht_remove(H, key(k), &o);
    long bm = 0;
    for (uint64_t i = 0; i < H->n; i++) if (H->b[i].bags > bm) bm = H->b[i].bags;
    vd_beg(); vd_ki("r", r); vd_ki("v", (long)o); vd_ki("n", H->nodes); vd_ki("nb", H->n); vd_ki("bm", bm); vd_end();
}
static void vd_finish(void) { if (H == &HS) ht_fini(H); else ht_del(H); }
