#include "vd.h"
#include <sys/time.h>
#include "utils/uuid.h"
#include "utils/ulid.h"
extern ssize_t uuid2str(char *out, size_t outsz, uint8_t *uuid);
static uint64_t rs = 88172645463325252ULL, ms; static long us;
static uint8_t rb(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; int k = rs >> 60; return k == 0 ? 255 : k == 1 ? 0 : rs >> 24; }
/* what the random source handed out; f: 1 it fails, 2 the clock fails */
static uint8_t g[256]; static size_t gn; static int f, hit;
int __wrap_getentropy(void *b, size_t n) { if (f == 1) { hit = 1; errno = EIO; return -1; } for (size_t i = 0; i < n; i++) { uint8_t v = rb(); ((uint8_t*)b)[i] = v; if (gn < sizeof g) g[gn++] = v; } return 0; }
ssize_t __wrap_getrandom(void *b, size_t n, unsigned fl) { (void)fl; return __wrap_getentropy(b, n) ? -1 : (ssize_t)n; }
int __wrap_gettimeofday(struct timeval *tv, void *z) { (void)z; if (f == 2) { hit = 1; errno = EPERM; return -1; } tv->tv_sec = ms / 1000; tv->tv_usec = (ms % 1000) * 1000 + us; return 0; }
int __wrap_clock_gettime(int c, struct timespec *ts) { (void)c; if (f == 2) { hit = 1; errno = EPERM; return -1; } ts->tv_sec = ms / 1000; ts->tv_nsec = ((ms % 1000) * 1000 + us) * 1000; return 0; }
time_t __wrap_time(time_t *p) { if (p) *p = ms / 1000; return ms / 1000; }
static void vd_begin(void) { vd_int(); }
static void vd_op(const char *op) {
    size_t l, i; uint8_t *in = 0; char *o; long n, r, r2 = 0;
    if (vd_is(op, "ustr") || vd_is(op, "lstr")) {
        in = vd_bytes(&l, 0); n = vd_int(); o = malloc(n + !n); memset(o, 0x7e, n + !n);
        if (*op == 'u') { char *o2 = malloc(n + !n); memset(o2, 0x7e, n + !n);
            r = uuid_tostring(o, n, in); r2 = uuid2str(o2, n, in); if (r2 != r || (r > 0 && strncmp(o, o2, n))) r = -12345; free(o2); }
        else r = ulid_tostring(o, n, in);
        vd_beg(); vd_ki("r", r); vd_kb("o", o, r < 0 ? 0 : strnlen(o, n)); vd_end();
    } else if (vd_is(op, "uparse") || vd_is(op, "lparse")) {
        in = vd_bytes(&l, 1); n = vd_int(); o = malloc(n + !n);
        r = *op == 'u' ? uuid_fromstring((uint8_t*)o, n, (char*)in) : ulid_fromstring((uint8_t*)o, n, (char*)in);
        vd_beg(); vd_ki("r", r); vd_kb("o", o, r < 0 ? 0 : 16); vd_end();
    } else if (vd_is(op, "ugen")) {
        n = vd_int(); f = vd_int(); hit = 0; gn = 0; o = malloc(n + !n); memset(o, 0xee, n + !n); r = uuid_generate((uint8_t*)o, n); f = 0;
        vd_beg(); vd_ki("r", r); vd_kb("o", o, r < 0 ? 0 : 16); vd_kb("g", g, gn); vd_ki("hit", hit); vd_end();
    } else {
        size_t k; long *m = vd_ints(&k); ms = 0; for (i = 0; i < k; i++) ms = ms << 16 | m[i]; free(m);
        us = vd_int(); n = vd_int(); f = vd_int(); hit = 0; gn = 0; o = malloc(n + !n); memset(o, 0xee, n + !n); char t[40] = "";
        r = ulid_generate((uint8_t*)o, n); f = 0; if (r > 0) r2 = ulid_tostring(t, sizeof t, (uint8_t*)o);
        vd_beg(); vd_ki("r", r2 < 0 ? -9999 : r); vd_kb("o", o, r < 0 ? 0 : 16); vd_ks("t", t); vd_kb("g", g, gn); vd_ki("hit", hit); vd_end();
    }
    free(o); free(in);
}
static void vd_finish(void) { }
