#include "vd.h"
#include <sys/types.h>
#include "utils/pack.h"
#define NA 16
/* memory: what the library took, and running out of it */
static int inside, armed = -1, live;
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void __real_free(void *);
static int out(void) { if (!inside || armed < 0 || armed-- > 0) return 0; return 1; }
void *__wrap_malloc(size_t n) { if (out()) return 0; live += inside; return __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t n) { if (out()) return 0; live += inside; return __real_calloc(a, n); }
void __wrap_free(void *p) { live -= inside && p; __real_free(p); }
typedef union { uint64_t u; double d; void *p; } arg;
static uint64_t be(long *a, long w) { uint64_t v = 0; for (long i = 0; i < w; i++) v = v << 8 | (uint64_t)(a[i] & 255); return v; }
static void vd_begin(void) { vd_int(); }
#define CALL(fn, buf, n, fmt) fn(buf, n, fmt, I[0], I[1], I[2], I[3], I[4], I[5], I[6], I[7], I[8], I[9], I[10], I[11], I[12], I[13], I[14], I[15], \
    D[0], D[1], D[2], D[3], D[4], D[5], D[6], D[7])
/* integers and doubles travel in separate register classes (at most 8 doubles are used) */
static void vd_op(const char *op) {
    char *fmt = vd_str(); uint64_t I[NA] = {0}; double D[8] = {0}; void *fr[2 * NA]; int ni = 0, nd = 0, nf = 0;
    if (vd_is(op, "pack")) {
        long cap = vd_int(); size_t na; long *a = vd_ints(&na); uint8_t *buf = malloc(cap + !cap); memset(buf, 0xa5, cap + !cap);
        for (size_t k = 0; k < na; ) {
            long t = a[k++];
            if (t == 0) { long w = a[k]; I[ni++] = be(a + k + 1, w); k += 1 + w; }
            else if (t == 1) { long w = a[k], n = a[k+1]; k += 2; uint8_t *x = malloc(w * n + !(w * n)); fr[nf++] = x;
                for (long i = 0; i < n; i++, k += w) for (long j = 0; j < w; j++) x[i*w + j] = a[k + w - 1 - j];
                I[ni++] = (uintptr_t)x; }
            else if (t == 2) { long n = a[k++]; if (n < 0) I[ni++] = 0; else { char *x = malloc(n + 1); fr[nf++] = x; for (long i = 0; i < n; i++) x[i] = a[k++]; x[n] = 0; I[ni++] = (uintptr_t)x; } }
            else if (t == 3) I[ni++] = (uint32_t)a[k++];
            else { long w = a[k]; uint64_t v = be(a + k + 1, w); k += 1 + w;
                if (w == 4) { uint32_t u = v; float f; memcpy(&f, &u, 4); D[nd++] = f; } else { double d; memcpy(&d, &v, 8); D[nd++] = d; } }
        }
        ssize_t r = CALL(Pack, buf, cap, fmt);
        vd_beg(); vd_ki("r", r); vd_kb("o", buf, r < 0 ? 0 : cap); vd_end();
        free(buf); free(a);
    } else {
        size_t nb, np; uint8_t *b = vd_bytes(&nb, 0); long *p = vd_ints(&np); void *ptr[NA] = {0}; long kind[NA], sz[NA]; int n = 0;
        for (size_t k = 0; k < np; k += 2, n++) {
            kind[n] = p[k]; sz[n] = p[k+1];
            if (kind[n] == 0 || kind[n] == 3) { I[n] = (uintptr_t)(fr[nf++] = malloc(sz[n] + !sz[n])); memset((void*)I[n], 0xee, sz[n]); }
            else I[n] = (uintptr_t)&ptr[n];
        }
        armed = vd_is(op, "unpackm") ? vd_int() : -1;
        live = 0; inside = 1; ssize_t r = CALL(Unpack, b, nb, fmt); inside = 0; armed = -1;
        vd_beg(); vd_ki("r", r); vd_key("v"); putchar('['); const char *s = "";
        #define OUT(x) (printf("%s%ld", s, (long)(x)), s = ",")
        uint32_t cnt = 0;
        for (int i = 0; i < n && r >= 0; i++) {
            uint8_t *q = (uint8_t*)(uintptr_t)I[i];
            OUT(kind[i]);
            if (kind[i] == 0) { OUT(sz[i]); for (long j = 0; j < sz[i]; j++) OUT(q[j]); }
            else if (kind[i] == 3) { memcpy(&cnt, q, 4); for (int j = 0; j < 4; j++) OUT(q[j]); }
            else if (!ptr[i]) OUT(-1);
            else if (kind[i] == 1) { uint8_t *z = ptr[i]; OUT(strlen((char*)z)); while (*z) OUT(*z++); }
            else { uint8_t *z = ptr[i]; OUT((long)cnt * sz[i]); for (long j = 0; j < (long)cnt * sz[i]; j++) OUT(z[j]); }
        }
        putchar(']'); vd_first = 0;
        inside = 1; for (int i = 0; i < NA; i++) free(ptr[i]);
        inside = 0; vd_ki("live", live); vd_end();
        free(b); free(p);
    }
    while (nf) free(fr[--nf]);
    free(fmt);
}
static void vd_finish(void) { }
