/* compressing and uncompressing sessions of zbuf; zlib itself is the reference */
#include "vd.h"
#include "zlib/zbuf.h"
#include <sys/mman.h>
static z_buf_context z; static int up; /* 1 compress 2 uncompress */ static int st; /* 0 none 1 running 2 failed 3 end of stream seen */
static uint8_t *keep[4096]; static int nk;
static uint8_t *obuf; static size_t osz; static size_t nalloc, live, failat;
static uint8_t *acc; static size_t na;         /* bytes accepted by the consumer */
static uint8_t *strm; static size_t ns, pos;   /* stream to uncompress */
static long *take; static size_t nt, it;
static uint8_t ob[1 << 20]; static size_t nob; static long ol[1 << 16]; static size_t nol; static long ot[1 << 16]; static int wild;
static void *za(void *o, unsigned n, unsigned s) { (void)o; if (++nalloc == failat) return 0; live++; return calloc(n, s); }
static void zf(void *o, void *p) { (void)o; if (p) live--; free(p); }
static int eat(void *o, void *b, int n) {
    (void)o; if ((uint8_t *)b < obuf || (uint8_t *)b + n > obuf + osz || n < 0) { wild = 1; return n; }
    long t = nt ? take[it++ % nt] : n; if (t > n) t = n;
    if (nob + n > sizeof ob || nol == 1 << 16) { wild = 2; return -1; }
    memcpy(ob + nob, b, n); nob += n; ol[nol] = n; ot[nol++] = t;
    if (t > 0) { acc = realloc(acc, na + t); memcpy(acc + na, b, t); na += t; }
    return t;
}
static void drop(void) { /* abandon the session without zbuf */
    if (up == 1) deflateEnd(&z.z); if (up == 2) inflateEnd(&z.z);
    up = st = 0; while (nk) free(keep[--nk]); free(obuf); obuf = 0; free(acc); acc = 0; na = 0; free(strm); strm = 0; ns = pos = 0; nob = nol = 0; }
static void vd_begin(void) { vd_tok(); drop(); if (vd_cap < 1 << 22) { char *p = malloc(1 << 22); strcpy(p, vd_line); vd_p = p + (vd_p - vd_line); free(vd_line); vd_line = p; vd_cap = 1 << 22; } }
static void vd_finish(void) { drop(); }
static void start(void) { osz = vd_int(); failat = vd_int(); drop(); obuf = malloc(osz); nalloc = 0; live = 0;
    z_buf_context_init(&z, obuf, osz, eat, &z); z_buf_context_set_allocator(&z, za, zf, 0); }
static void takes(void) { static long *o; size_t n; free(o); o = take = vd_ints(&n); nt = n; it = 0; nob = nol = 0; wild = 0; }
static int cls(int r) { return r == Z_OK ? 0 : r == Z_STREAM_END ? 1 : -1; }
static void tell(int r, int over) {
    vd_beg();  vd_ki("r", cls(r)); vd_kb("ob", ob, nob); vd_kl("ol", ol, nol); vd_kl("ot", ot, nol); vd_ki("wild", wild);
    if (over) { vd_ki("live", live); vd_kb("acc", acc, na); }
}
static void vd_op(const char *op) {
    size_t n;
    if (vd_is(op, "cinit")) {
        int lev = vd_int(), wb = vd_int(); start(); int r = z_buf_compress_init(&z, lev, wb);
        if (r == Z_OK) up = st = 1; vd_beg(); vd_ki("r", cls(r)); vd_ki("live", live); vd_end();
    } else if (vd_is(op, "cfeed")) {
        uint8_t *d = vd_bytes(&n, 0); takes(); int r = 0; if (up == 1 && st == 1) { r = z_buf_compress(&z, d, n); if (cls(r) < 0) st = 2; } keep[nk++] = d; tell(r, 0); vd_end();
    } else if (vd_is(op, "cend")) {
        takes(); int was = up == 1, r = was ? z_buf_compress_end(&z) : 0; tell(r, 1);
        uLongf m = 1 << 20; static uint8_t big[1 << 20]; int q = Z_OK;
        q = uncompress(big, &m, acc ? acc : big, na); vd_ki("dec", q == Z_OK); vd_kb("plain", big, q == Z_OK ? m : 0); vd_end();
        if (was) { up = 0; if (live) drop(); } drop();
    } else if (vd_is(op, "uinit")) {      /* p: plain text compressed here by zlib, then changed as asked */
        uint8_t *p = vd_bytes(&n, 0); int lev = vd_int(), wb = vd_int(); long cut = vd_int(), flip = vd_int(), junk = vd_int(); start();
        z_stream s = {0}; deflateInit2(&s, lev, Z_DEFLATED, wb, 8, Z_DEFAULT_STRATEGY); ns = deflateBound(&s, n); strm = malloc(ns + junk + 1);
        s.next_in = p; s.avail_in = n; s.next_out = strm; s.avail_out = ns; deflate(&s, Z_FINISH); ns = s.total_out; deflateEnd(&s); free(p);
        if (cut > (long)ns) cut = ns; size_t whole = ns; ns -= cut; 
        if (flip >= 0 && ns) strm[flip / 8 % ns] ^= 1 << (flip % 8);
        for (long i = 0; i < junk; i++) strm[ns++] = 0x5a + i;
        int r = z_buf_uncompress_init(&z, wb); if (r == Z_OK) up = 2, st = 1;
        vd_beg(); vd_ki("r", cls(r)); vd_ki("whole", whole); vd_ki("size", ns); vd_ki("live", live); vd_end();
    } else if (vd_is(op, "ufeed")) {
        long k = vd_int(); takes(); if (k > (long)(ns - pos)) k = ns - pos; uint8_t *d = malloc(k); if (k) memcpy(d, strm + pos, k); pos += k;
        int r = 0; long got = 0; if (up == 2 && st != 2) { got = k; r = z_buf_uncompress(&z, d, k); if (cls(r) < 0) st = 2; else if (cls(r) == 1) st = 3; } else pos -= k; keep[nk++] = d; tell(r, 0); vd_ki("got", got); vd_end();
    } else if (vd_is(op, "uend")) {
        takes(); int was = up == 2, r = was ? z_buf_uncompress_end(&z) : 0; tell(r, 1);
        static uint8_t big[1 << 20]; z_stream s = {0}; inflateInit2(&s, 15); s.next_in = strm; s.avail_in = pos; s.next_out = big; s.avail_out = sizeof big;
        if (was && pos) inflate(&s, Z_SYNC_FLUSH); size_t nr = s.total_out; inflateEnd(&s); vd_kb("ref", big, nr); vd_end();
        if (was) { up = 0; if (live) drop(); } drop();
    }
}
