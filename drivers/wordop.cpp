/* byte order, alignment, powers of two, bounded indexes and time units: the header macros */
extern "C" {
#include "vd.h"
#include "fast/byteorder.h"
#include "utils/nospec.h"
#include "fast/tmutils.h"
#include "fast/encdec.h"
uint64_t be_conv(int m, uint64_t x), c_align(int op, uint64_t x, uint64_t n, int b), c_unit(int m, uint64_t x), c_uniti(int m, int x), c_clock(int m, uint64_t x, uint64_t y), c_konst(int m, int k), c_index(uint64_t, uint64_t, int);
}
#include "utils/typeutils.h"
static uint64_t limbs(void) { size_t n; long *p = vd_ints(&n); uint64_t v = 0; for (size_t i = 0; i < n; i++) v = v << 16 | (uint64_t)p[i]; free(p); return v; }
uint64_t le_conv(int m, uint64_t x) {
    switch (m) {
#include "wordop.inc"
    }
    return 0;
}
extern "C" { static void vd_begin(void) { vd_int(); } static void vd_finish(void) {}
static uint8_t area[64];
static int guard(size_t n) { int g = 0; for (size_t i = 0; i < sizeof area; i++) if ((i < 21 || i >= 21 + n) && area[i] != 0xa5) g++; return g; }
static void vd_op(const char *op) {
    if (vd_is(op, "enc")) {
        uint64_t x = limbs(); int le = *vd_tok() == 'L', b = vd_int(); memset(area, 0xa5, sizeof area); uint8_t *p = area + 21, *q; double d; memcpy(&d, &x, 8);
        switch (b) {
            case 2: q = le ? enc_LE_u16(p, x) : enc_BE_u16(p, x); break;
            case 4: q = le ? enc_LE_u32(p, x) : enc_BE_u32(p, x); break;
            case 8: q = le ? enc_LE_u64(p, x) : enc_BE_u64(p, x); break;
            default: q = le ? enc_LE_float64(p, d) : enc_BE_float64(p, d); break;
        }
        size_t n = b == 9 ? 8 : b; vd_beg(); vd_kb("out", (char *)p, n); vd_ki("n", q - p); vd_ki("guard", guard(n)); vd_end(); return;
    }
    if (vd_is(op, "dec")) {
        size_t n; uint8_t *d = vd_bytes(&n, 0); int le = *vd_tok() == 'L', b = vd_int(); memset(area, 0xa5, sizeof area); uint8_t *p = area + 21; memcpy(p, d, n); uint64_t r = 0; double z;
        switch (b) {
            case 2: r = le ? dec_LE_u16(p) : dec_BE_u16(p); break;
            case 4: r = le ? dec_LE_u32(p) : dec_BE_u32(p); break;
            case 8: r = le ? dec_LE_u64(p) : dec_BE_u64(p); break;
            default: z = le ? dec_LE_float64(p) : dec_BE_float64(p); memcpy(&r, &z, 8); break;
        }
        vd_beg(); vd_k64("r", r); vd_ki("guard", guard(n)); vd_end(); free(d); return;
    }
    uint64_t x = limbs(), r = 0;
    if (vd_is(op, "conv")) { char *h = vd_tok(); int m = vd_int(); r = *h == 'L' ? le_conv(m, x) : be_conv(m, x); }
    else if (vd_is(op, "konst")) { int m = vd_int(), k = vd_int(); r = c_konst(m, k); }
    else if (vd_is(op, "index")) { uint64_t y = limbs(); r = c_index(x, y, vd_int()); }
    else if (vd_is(op, "unit")) { int m = vd_int(); r = vd_int() == 4 ? c_uniti(m, (int)x) : c_unit(m, x); }
    else if (vd_is(op, "clock")) { int m = vd_int(); uint64_t y = limbs(); r = c_clock(m, x, y); }
    else {
        int o = vd_is(op, "up") ? 0 : vd_is(op, "down") ? 1 : vd_is(op, "is") ? 2 : vd_is(op, "pow2") ? 3 : 4;
        uint64_t n = o < 3 ? 1ull << vd_int() : 0; int b = vd_int(), v = vd_int();
        if (!v) r = c_align(o, x, n, b);
        else if (b == 8) r = o == 0 ? putils::align_up(x, n) : o == 1 ? putils::align_down(x, n) : o == 2 ? (putils::is_aligned(x, n)) : putils::round_up_pow2(x);
        else { uint32_t y = x; r = o == 0 ? putils::align_up(y, n) : o == 1 ? putils::align_down(y, n) : o == 2 ? (putils::is_aligned(y, n)) : putils::round_up_pow2(y); }
    }
    vd_beg(); vd_k64("r", r); vd_end();
} }
