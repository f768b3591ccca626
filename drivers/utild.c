#include "vd.h"
#include <sys/types.h>
#include "utils/strutils.h"
extern int pl_strcasecmp(const char *, const char *), pl_strncasecmp(const char *, const char *, size_t);
extern size_t pl_strlcpy(char *, const char *, size_t);
extern const char *dirname(char *buf, size_t bsize, const char *p);
static void vd_begin(void) { vd_int(); }
static void vd_op(const char *op) {
    size_t len; char *s = (char *)vd_bytes(&len, 1);
    vd_beg();
    if (vd_is(op, "copy")) {
        long n = vd_int(); char *d = malloc(n); memset(d, 0xee, n);
        long r = strcopy(d, n, s);
        vd_ki("r", r); vd_kb("o", d, strnlen(d, n)); free(d);
    } else if (vd_is(op, "lcpy")) {
        long n = vd_int(); char *d = malloc(n + !n); memset(d, 0xee, n + !n);
        size_t r = pl_strlcpy(d, s, n), k = strnlen(d, n);
        vd_ki("r", r); vd_ki("nul", (long)k < n); vd_kb("o", d, k); free(d);
    } else if (vd_is(op, "dir")) {
        long n = vd_int(); char *d = malloc(n + !n); memset(d, 0xee, n);
        const char *z = dirname(d, n, s);
        vd_ki("r", z ? (z == d ? 1 : 2) : 0); vd_kb("o", z ? z : "", z ? strlen(z) : 0); free(d);
    } else if (vd_is(op, "cmp")) {
        char *t = vd_str(); int r = pl_strcasecmp(s, t); vd_ki("r", (r > 0) - (r < 0)); free(t);
    } else if (vd_is(op, "ncmp")) {
        size_t tn; uint8_t *t = vd_bytes(&tn, 1); size_t n = vd_int();
        /* neither text needs to be terminated within its first n bytes */
        char *a = len >= n ? malloc(n + !n) : 0, *b = tn >= n ? malloc(n + !n) : 0; if (a) memcpy(a, s, n); if (b) memcpy(b, t, n);
        int r = pl_strncasecmp(a ? a : s, b ? b : (char *)t, n); vd_ki("r", (r > 0) - (r < 0)); free(t); free(a); free(b);
    } else if (vd_is(op, "trim")) {
        char *z = strtrim(s);
        vd_ki("r", z >= s && z <= s + len); vd_ks("o", z);
    } else {
        char *z = s; int r = strunquote(s, &z);
        vd_ki("r", r); vd_ks("o", z);
    }
    vd_end(); free(s);
}
static void vd_finish(void) { }
