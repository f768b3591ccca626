#include "vd.h"
#include "utils/parse-ip.h"
static void vd_begin(void) {}
static void vd_finish(void) {}
static void k32(const char *k, uint32_t v) { long l[2] = { v >> 16, v & 65535 }; vd_kl(k, l, 2); }
static uint32_t g32(void) { size_t n; long *p = vd_ints(&n); uint32_t v = (uint32_t)p[0] << 16 | (uint32_t)p[1]; free(p); return v; }
static void vd_op(const char *op) {
    uint32_t a = 0, m = 0;
    if (vd_is(op, "addr")) {
        char *s = vd_str(); int r = parse_ipv4(&a, s);
        vd_beg(); vd_ki("r", r); k32("a", a); vd_end(); free(s);
    } else if (vd_is(op, "both")) {
        char *s = vd_str(); int r = parse_ipv4_and_mask(&a, &m, s);
        vd_beg(); vd_ki("r", r); k32("a", a); k32("m", m); vd_end(); free(s);
    } else if (vd_is(op, "cidr")) {
        uint32_t v = g32(), n = 777; int r = mask_to_cidr4(v, &n);
        vd_beg(); vd_ki("r", r); vd_ki("n", n); vd_end();
    } else {
        uint32_t v = g32(); long n = vd_int(); char *b = malloc(n); memset(b, 'x', n);
        char *z = str_ipv4(b, n, v);
        if (!memchr(b, 0, n)) b[n-1] = '!', b = realloc(b, n+1), b[n] = 0;
        int r = parse_ipv4(&a, b);
        vd_beg(); vd_ks("t", b); vd_ki("same", z == b); vd_ki("r", r); k32("back", a); vd_end(); free(b);
    }
}
