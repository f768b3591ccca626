/* memory mapped files */
#include "vd.h"
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <map>
#include "utils/mmap.h"
using namespace putils;
static int fail, kind; static long live, lfrom, llen; static uint8_t *base;
enum { NONE, OPEN, MAP, LOCK };
extern "C" {
int __real_open(const char *, int, ...); int __real_fstat(int, struct stat *); int __real_ftruncate(int, off_t);
void *__real_mmap(void *, size_t, int, int, int, off_t); int __real_munmap(void *, size_t);
int __wrap_open(const char *n, int fl, int m) { if (kind == OPEN && fail == 1) { errno = EMFILE; return -1; } return __real_open(n, fl, m); }
int __wrap___open_2(const char *n, int fl) { return __wrap_open(n, fl, 0); }
int __wrap_open64(const char *n, int fl, int m) { return __wrap_open(n, fl, m); }
int __wrap_fstat(int f, struct stat *s) { if (kind == OPEN && fail == 2) { errno = EIO; return -1; } return __real_fstat(f, s); }
int __wrap_ftruncate(int f, off_t n) { if (kind == MAP && fail == 2) { errno = ENOSPC; return -1; } return __real_ftruncate(f, n); }
static long up(long n) { return (n + 4095) & ~4095l; }
void *__wrap_mmap(void *a, size_t n, int p, int fl, int f, off_t o) {
    if (kind == MAP && fail == 1) { errno = ENOMEM; return MAP_FAILED; }
    void *r = __real_mmap(a, n, p, fl, f, o); if (r != MAP_FAILED) live += up(n); return r;
}
int __wrap_munmap(void *a, size_t n) { int r = __real_munmap(a, n); if (r == 0) live -= up(n); return r; }
static int lock(const void *p, size_t n) { if (fail) { errno = EAGAIN; return -1; } lfrom = (uint8_t *)p - base; llen = n; return 0; }
int __wrap_mlock(const void *p, size_t n) { return lock(p, n); }
int __wrap_munlock(const void *p, size_t n) { return lock(p, n); }
}
static mmap_file *mm; static std::map<long, std::pair<uint8_t *, size_t>> maps; static long ids; static int fd0;
static int nfds() { int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
static void vd_begin() {
    unlink("the-file"); long n = vd_int(); size_t k, k2; long *at = vd_ints(&k), *v = vd_ints(&k2); maps.clear(); ids = 0; live = 0; fd0 = nfds();
    if (n >= 0) {
        int f = __real_open("the-file", O_CREAT | O_TRUNC | O_RDWR, 0600); (void)!__real_ftruncate(f, n);
        for (size_t i = 0; i < k; i++) { char c = v[i]; (void)!pwrite(f, &c, 1, at[i]); }
        close(f);
    }
    free(at); free(v);
}
static void vd_finish() { fail = 0; delete mm; mm = 0; unlink("the-file"); }
static void sparse(const char *ka, const char *kv, const uint8_t *p, long n) {
    long *a = (long *)malloc(8 * (n + 1)), *v = (long *)malloc(8 * (n + 1)), k = 0;
    for (long i = 0; i < n; i++) if (p[i]) { a[k] = i; v[k++] = p[i]; }
    vd_kl(ka, a, k); vd_kl(kv, v, k); free(a); free(v);
}
static long regot(void *p, size_t n) {
    for (auto &m : maps) if (m.second.first == p) return m.first;
    maps[++ids] = { (uint8_t *)p, n }; return ids;
}
static void vd_op(const char *op) {
    long got = 0, r = 0, err = 0, rid = 0; int named = 0, reason = 0; lfrom = llen = -1; kind = NONE; fail = 0;
    try {
        if (vd_is(op, "open")) { unsigned fl = vd_int(); fail = vd_int(); kind = OPEN; mm = new mmap_file("the-file", fl); }
        else if (vd_is(op, "map")) { long o = vd_int(), n = vd_int(); fail = vd_int(); kind = MAP; void *p = mm->mmap(o, n); got = regot(p, n); }
        else if (vd_is(op, "all")) { fail = vd_int(); kind = MAP; long n = mm->filesize(); void *p = mm->mmap(); got = regot(p, n); }
        else if (vd_is(op, "far")) {
            long k = vd_int(); kind = MAP;
            if (k == 0) mm->mmap(0x7ffffffffffff000l, 4096);
            if (k == 1) mm->mmap(4096, (size_t)-4096);
            if (k == 2) mm->mmap(-4096, 4096);
            if (k == 3) mm->mmap(1000000007, (size_t)-1000000007);
        }
        else if (vd_is(op, "write")) { auto &m = maps[vd_int()]; long o = vd_int(); m.first[o] = vd_int(); }
        else if (vd_is(op, "read")) rid = vd_int();
        else if (vd_is(op, "unmap")) { long id = vd_int(); if (id) { mm->unmap(maps[id].first); maps.erase(id); } else { static char other[8192]; mm->unmap(other); } }
        else if (vd_is(op, "close")) { delete mm; mm = 0; maps.clear(); }
        else { auto &m = maps[vd_int()]; base = m.first; long o = vd_int(), n = vd_int(); fail = vd_int(); kind = LOCK; if (vd_is(op, "lock")) mm->mlock(base + o, n); else mm->munlock(base + o, n); }
    } catch (const sys_exception &x) {
        r = -1; err = x.errcode(); named = strstr(x.what(), "the-file") != 0; reason = err && strstr(x.what(), strerror(err)) != 0;
    }
    kind = NONE; fail = 0; vd_beg(); vd_ki("r", r); vd_ki("err", err); vd_ki("named", named); vd_ki("reason", reason); vd_ki("got", got); vd_ki("from", lfrom); vd_ki("len", llen);
    vd_ki("live", live); vd_ki("fds", nfds() - fd0); vd_ki("size", mm ? (long)mm->filesize() : -1);
    if (rid) sparse("mat", "mval", maps[rid].first, maps[rid].second);
    int f = __real_open("the-file", O_RDONLY); long n = -1; uint8_t *b = 0;
    if (f >= 0) { struct stat st; __real_fstat(f, &st); n = st.st_size; b = (uint8_t *)malloc(n + 1); n = pread(f, b, n, 0); close(f); }
    vd_ki("disk", n); sparse("at", "val", b, n); free(b); vd_end();
}
