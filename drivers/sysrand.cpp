/* random bytes from the system */
#include "vd.h"
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include "syserror.h"
#include "utils/random.h"
using namespace putils;
/* the parts of the base class that the library does not provide */
namespace putils {
__attribute__((weak)) randgen::~randgen() {}
__attribute__((weak)) double randgen::generate_float() { return 0; }
__attribute__((weak)) int randgen::generate_int() { return 0; }
__attribute__((weak)) bool randgen::generate_bool() { return false; }
__attribute__((weak)) unsigned char randgen::generate_byte() { return 0; }
__attribute__((weak)) void *randgen::generate_bits(void *, size_t) { return 0; }
}
extern "C" { void *sys_randbytes(void *, int); unsigned long sys_randlong(void);
static int openfail, inside; static long pos, *st; static size_t nst, at;
ssize_t __real_read(int, void *, size_t); int __real_open(const char *, int, ...);
static int op_(const char *n, int fl, int m) { if (inside && openfail) { errno = openfail; return -1; } return __real_open(n, fl, m); }
int __wrap_open(const char *n, int fl, int m) { return op_(n, fl, m); }
int __wrap_open64(const char *n, int fl, int m) { return op_(n, fl, m); }
int __wrap___open_2(const char *n, int fl) { return op_(n, fl, 0); }
static ssize_t rd(int fd, void *b, size_t n) {
    if (!inside) return __real_read(fd, b, n);
    if (n == 0) return 0;
    if (at < nst) { long x = st[at++]; if (x < 0) { errno = -x; return -1; } if ((size_t)x < n) n = x; }
    for (size_t i = 0; i < n; i++, pos++) ((uint8_t *)b)[i] = (pos * 7 + (pos / 256) * 31 + 3) % 256;
    return n;
}
ssize_t __wrap_read(int fd, void *b, size_t n) { return rd(fd, b, n); }
ssize_t __wrap___read_chk(int fd, void *b, size_t n, size_t) { return rd(fd, b, n); }
}
static void vd_begin() { openfail = vd_int(); pos = 0; }
static void vd_finish() {}
static int nfds() { int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
static void vd_op(const char *op) {
    int lng = vd_is(op, "long") || vd_is(op, "clong"); size_t n = lng ? 8 : vd_int(); st = vd_ints(&nst); at = 0; int f0 = nfds(), err = 0, same = 1;
    uint8_t *b = (uint8_t *)malloc(n + 16); memset(b, 0xee, n + 16); void *p; unsigned long v; size_t out = 0;
    inside = 1;
    try {
        if (vd_is(op, "cbits")) { p = sys_randbytes(b, n); same = p == b; }
        else if (vd_is(op, "clong")) { v = sys_randlong(); memcpy(b, &v, 8); }
        else { sys_rand r; if (lng) { v = r.generate_long(); memcpy(b, &v, 8); } else { randgen &g = r; p = g.generate_bits(b, n); same = p == b; } }
        out = n;
    } catch (const sys_exception &x) { err = x.errcode(); }
    inside = 0; int past = 0; for (int i = 0; i < 16; i++) past |= b[n + i] != 0xee;
    vd_beg(); vd_ki("err", err); vd_kb("out", b, out); vd_ki("past", past); vd_ki("same", same); vd_ki("fds", nfds() - f0); vd_end(); free(b); free(st);
}
