#include "vd.h"
#include <sys/types.h>
#include "utils/strutils.h"
#include "utils/base64.h"
static base64_encode_state es; static base64_decode_state ds; static size_t fed;
static void vd_begin(void) { vd_int(); memset(&es, 0x55, sizeof es); memset(&ds, 0x55, sizeof ds); base64_encode_init(&es); base64_decode_init(&ds); fed = 0; }
static void rep(long r, void *o, int z) { vd_beg(); vd_ki("r", r); vd_kb("o", o, r > 0 ? r : 0); vd_ki("z", z); vd_end(); }
static int ncode(const uint8_t *s, size_t n) { int k = 0; for (size_t i = 0; i < n; i++) k += (s[i] >= '0' && s[i] <= '9') || (s[i] >= 'a' && s[i] <= 'z') || (s[i] >= 'A' && s[i] <= 'Z') || s[i] == '+' || s[i] == '/'; return k; }
static void vd_op(const char *op) {
    if (vd_is(op, "eblk")) {
        size_t n; uint8_t *s = vd_bytes(&n, 0);
        char *o = malloc(((n + 2) / 3) * 4 + 4 + n / 54 + 2);
        rep(base64_encode_block(&es, (char *)s, n, o), o, 0);
        fed += n; free(o); free(s);
    } else if (vd_is(op, "efin")) {
        char *o = malloc(6); memset(o, 7, 6);
        int r = base64_encode_finish(&es, o);
        rep(r, o, r >= 0 && r < 6 && o[r] == 0);
        free(o); base64_encode_init(&es); fed = 0;
    } else if (vd_is(op, "dblk")) {
        size_t n; uint8_t *s = vd_bytes(&n, 0); int k = ncode(s, n);
        int room = (fed * 6 % 8 + k * 6) / 8;      /* complete bytes this block can yield */
        char *o = malloc(room + !room);
        int r = base64_decode_block(&ds, (char *)s, n, o);
        rep(r, o, 0); fed += k; free(o); free(s);
    } else if (vd_is(op, "dinit")) { base64_decode_init(&ds); fed = 0; rep(0, 0, 0); }
    else if (vd_is(op, "ebuf")) {
        size_t n; uint8_t *s = vd_bytes(&n, 0); long k = vd_int();
        char *o = malloc(k + !k); memset(o, 7, k);
        int r = base64_encode_buf(o, k, s, n);
        rep(r, o, r >= 0 && r < k && o[r] == 0);
        free(o); free(s);
    } else if (vd_is(op, "dbuf")) {
        size_t n; uint8_t *s = vd_bytes(&n, 0); long k = vd_int();
        char *o = malloc(k + !k);
        int r = base64_decode_buf(o, k, (char *)s, n);
        rep(r, o, 0); free(o); free(s);
    } else {
        char *s = vd_str(); long k = vd_int();
        uint8_t *o = malloc(k + !k);
        rep(str2hex(o, k, s), o, 0);
        free(o); free(s);
    }
}
static void vd_finish(void) { }
