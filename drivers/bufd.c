#include "vd.h"
#include "utils/utils.h"
#include "fast/buf.h"
static fast_buf b;
static void vd_begin(void) { memset(&b, 1, sizeof b); fast_buf_init(&b, vd_int()); }
static void report(long r) { vd_beg(); vd_ki("r", r); vd_kb("c", fast_buf_ptr(&b), fast_buf_len(&b)); vd_ki("len", fast_buf_len(&b)); vd_ki("cap", fast_buf_cap(&b)); if (fast_buf_cap(&b)) { volatile uint8_t *p = fast_buf_ptr(&b) + fast_buf_cap(&b) - 1; uint8_t o = *p; *p = o ^ 1; *p = o; } vd_end(); }
static void vd_op(const char *op) {
    long r = 1;
    if (vd_is(op, "byte")) r = fast_buf_append_byte(&b, vd_int()) == &b;
    else if (vd_is(op, "buf")) { size_t n; uint8_t *p = vd_bytes(&n, 0); r = fast_buf_append_buf(&b, p, n) == &b; memset(p, 0xdd, n); free(p); }
    else if (vd_is(op, "run")) { long n = vd_int(), x = vd_int(); uint8_t *p = malloc(n + !n); memset(p, x, n); fast_buf_append_buf(&b, p, n); free(p); }
    else if (vd_is(op, "reserve")) { long n = vd_int(); fast_buf_reserve(&b, n); r = fast_buf_cap(&b) >= n; }
    else if (vd_is(op, "grow")) { long n = vd_int(); fast_buf_grow(&b, n); r = fast_buf_cap(&b) - fast_buf_len(&b) >= n; }
    else if (vd_is(op, "adv")) { long n = vd_int(), x = vd_int(); fast_buf_grow(&b, n); memset(fast_buf_ptr(&b) + fast_buf_len(&b), x, n); r = fast_buf_advance(&b, n) == &b; }
    else if (vd_is(op, "reset")) r = fast_buf_reset(&b) == &b;
    else if (vd_is(op, "reinit")) { fast_buf_fini(&b); fast_buf_fini(&b); fast_buf_init(&b, vd_int()); }
    report(r);
}
static void vd_finish(void) { fast_buf_fini(&b); }
