/* Saving and loading Bloom / xor filters: damage to files, faults and crashes. */
#define _GNU_SOURCE 1
#include "vd.h"
#include <unistd.h>
#include <fcntl.h>
#include <stdarg.h>
#include <dirent.h>
#include <limits.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include "utils/bloom.h"
#include "bloom_internal.h"
#include "utils/xorfilter.h"
#include "xorfilt_internal.h"
static uint64_t rs;
int getentropy(void *p, size_t n) { unsigned char *b = (unsigned char*)p; while (n--) { rs = rs * 6364136223846793005ULL + 1442695040888963407ULL; *b++ = rs >> 56; } return 0; }
static uint64_t val(long x) { return x == 0 ? 0 : x == 1 ? ~(uint64_t)0 : (uint64_t)x * 0x9e3779b97f4a7c15ULL; }
static const double E[] = { .5, .3, .1, .01, .001, 1e-6, .9 };

/* ------------------------------------------------------------ recorded calls */
enum { C_OPEN = 1, C_TRUNC, C_WRITE, C_MMAP, C_MUNMAP, C_MSYNC, C_FSYNC, C_CLOSE, C_RENAME, C_UNLINK };
static int armed, ncall, fk, fmode;              /* fault at call fk: 1 EIO, 2 ENOSPC, 3 crash before, 4 crash after */
static int outfd = -1;
static struct { int fd; char path[64]; } fds[64]; static int nfds;
static struct { char path[64]; int id; } ids[64]; static int nids;
static int id_of(const char *p) { for (int i = 0; i < nids; i++) if (!strcmp(ids[i].path, p)) return ids[i].id; if (nids < 64) { snprintf(ids[nids].path, 64, "%s", p); ids[nids].id = nids + 1; return ids[nids++].id; } return 63; }
static long hash_path(const char *p) {
    int was = armed; armed = 0;
    int fd = open(p, O_RDONLY); unsigned long h = 2166136261u; long n;
    if (fd < 0) { armed = was; return 0; }
    unsigned char b[8192]; while ((n = read(fd, b, sizeof b)) > 0) for (long i = 0; i < n; i++) h = (h ^ b[i]) * 16777619u & 0xffffffff;
    close(fd); armed = was; return (h & 0x3fffffff) + 1;
}
static const char *fd_path(int fd) { for (int i = 0; i < nfds; i++) if (fds[i].fd == fd) return fds[i].path; return 0; }
/* one record: [call, result 0/1, file id, second file id, content hash after] */
static void rec(int c, int ok, const char *p, const char *q) {
    int e = errno; char b[128];
    int n = snprintf(b, sizeof b, "%d %d %d %d %ld\n", c, ok, p ? id_of(p) : 0, q ? id_of(q) : 0, p ? hash_path(q && ok ? q : p) : 0);
    if (outfd >= 0) { int was = armed; armed = 0; if (write(outfd, b, n) != n) abort(); armed = was; }
    errno = e;
}
static int pre(void) {
    if (!armed) return 0;
    ncall++;
    if (ncall != fk) return 0;
    if (fmode == 3) _exit(77);
    if (fmode == 1) { errno = EIO; return 1; }
    if (fmode == 2) { errno = ENOSPC; return 1; }
    return 0;
}
static void post(void) { if (armed && ncall == fk && fmode == 4) _exit(77); }
#define W(c, p, q, call, okexpr, failval) do { if (!armed) return call; if (pre()) { rec(c, 0, p, q); return failval; } __auto_type r_ = call; rec(c, okexpr, p, q); post(); return r_; } while (0)
int __real_mkostemp(char*, int); int __real_mkstemp(char*); int __real_open(const char*, int, int); int __real_ftruncate(int, off_t); ssize_t __real_write(int, const void*, size_t);
ssize_t __real_pwrite(int, const void*, size_t, off_t); void *__real_mmap(void*, size_t, int, int, int, off_t); int __real_munmap(void*, size_t); int __real_msync(void*, size_t, int);
int __real_fsync(int); int __real_fdatasync(int); int __real_close(int); int __real_rename(const char*, const char*); int __real_unlink(const char*);
/* loading with the k-th of: 0 memory for bytes, 1 mapping, 2 opening, 3 stat failing; what the library holds */
static int lin, lwhat, lk, lhit; static long llive;
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *); int __real_fstat(int, struct stat *);
static int lfail(int w) { if (!lin || w != lwhat || lk-- != 0) return 0; lhit = 1; errno = w == 0 || w == 1 ? ENOMEM : EMFILE; return 1; }
void *__wrap_malloc(size_t n) { if (lfail(0)) return 0; void *p = __real_malloc(n); llive += lin && p; return p; }
void *__wrap_calloc(size_t a, size_t n) { void *p = __real_calloc(a, n); llive += lin && p; return p; }
void *__wrap_realloc(void *q, size_t n) { void *p = __real_realloc(q, n); llive += lin && p && !q; return p; }
void __wrap_free(void *p) { llive -= lin && p; __real_free(p); }
int __wrap_fstat(int fd, struct stat *st) { if (lfail(3)) return -1; return __real_fstat(fd, st); }
static int opened(int fd, const char *p) { if (fd >= 0 && nfds < 64) { fds[nfds].fd = fd; snprintf(fds[nfds++].path, 64, "%s", p); } if (armed) { rec(C_OPEN, fd >= 0, p, 0); post(); } return fd; }
int __wrap_mkostemp(char *t, int f) { if (!armed) return __real_mkostemp(t, f); if (pre()) { rec(C_OPEN, 0, t, 0); return -1; } return opened(__real_mkostemp(t, f), t); }
int __wrap_mkstemp(char *t) { if (!armed) return __real_mkstemp(t); if (pre()) { rec(C_OPEN, 0, t, 0); return -1; } return opened(__real_mkstemp(t), t); }
int __wrap_open(const char *p, int f, ...) { va_list ap; va_start(ap, f); int m = va_arg(ap, int); va_end(ap); if (lfail(2)) return -1; if (!armed) return __real_open(p, f, m); if (pre()) { rec(C_OPEN, 0, p, 0); return -1; } return opened(__real_open(p, f, m), p); }
int __wrap_ftruncate(int fd, off_t n) { W(C_TRUNC, fd_path(fd), 0, __real_ftruncate(fd, n), r_ == 0, -1); }
ssize_t __wrap_write(int fd, const void *b, size_t n) { W(C_WRITE, fd_path(fd), 0, __real_write(fd, b, n), r_ == (ssize_t)n, -1); }
ssize_t __wrap_pwrite(int fd, const void *b, size_t n, off_t o) { W(C_WRITE, fd_path(fd), 0, __real_pwrite(fd, b, n, o), r_ == (ssize_t)n, -1); }
void *__wrap_mmap(void *a, size_t n, int p, int f, int fd, off_t o) { if (lin && fd >= 0) { if (lfail(1)) return MAP_FAILED; void *q = __real_mmap(a, n, p, f, fd, o); llive += q != MAP_FAILED; return q; } if (fd < 0) return __real_mmap(a, n, p, f, fd, o); W(C_MMAP, fd_path(fd), 0, __real_mmap(a, n, p, f, fd, o), r_ != MAP_FAILED, MAP_FAILED); }
int __wrap_munmap(void *a, size_t n) { if (lin) llive--; if (!armed) return __real_munmap(a, n); ncall++; if (ncall == fk && fmode == 3) _exit(77); int r = __real_munmap(a, n); post(); return r; }
int __wrap_msync(void *a, size_t n, int f) { W(C_MSYNC, 0, 0, __real_msync(a, n, f), r_ == 0, -1); }
int __wrap_fsync(int fd) { W(C_FSYNC, fd_path(fd), 0, __real_fsync(fd), r_ == 0, -1); }
int __wrap_fdatasync(int fd) { W(C_FSYNC, fd_path(fd), 0, __real_fdatasync(fd), r_ == 0, -1); }
int __wrap_close(int fd) {
    const char *p = fd_path(fd); if (!armed || !p) return __real_close(fd);
    char path[64]; strcpy(path, p); int f = pre(), r = __real_close(fd); rec(C_CLOSE, !f && r == 0, path, 0);
    for (int i = 0; i < nfds; i++) if (fds[i].fd == fd) fds[i--] = fds[--nfds];
    if (f) { errno = fmode == 2 ? ENOSPC : EIO; return -1; } post(); return r;
}
int __wrap_rename(const char *a, const char *b) { W(C_RENAME, a, b, __real_rename(a, b), r_ == 0, -1); }
int __wrap_unlink(const char *a) { W(C_UNLINK, a, 0, __real_unlink(a), r_ == 0, -1); }

/* ------------------------------------------------------------ filters */
typedef struct { int kind; Bloom *b; Xorfilter *x; } Fl;
static Fl mk(int kind, long n, int e, long base) {
    Fl f = { kind, 0, 0 };
    if (kind >= 3) { uint64_t *k = malloc(n * 8); for (long i = 0; i < n; i++) k[i] = val(base + i); f.x = kind == 3 ? Xorfilter_new8(k, n) : Xorfilter_new16(k, n); free(k); }
    else { uint64_t cap = kind == 2 && n > 8 ? n / 8 : n; f.b = kind == 0 ? Counting_bloom_new(cap, E[e]) : Standard_bloom_new(cap, E[e], kind == 2); for (long i = 0; i < n; i++) Bloom_probe(f.b, val(base + i)); }
    return f;
}
static int save(Fl f, const char *p) { return f.x ? Xorfilter_marshal(f.x, p) : Bloom_marshal(f.b, p); }
static int load(int kind, const char *p, int mm, Fl *o) {
    o->kind = kind; o->b = 0; o->x = 0;
    return kind >= 3 ? Xorfilter_unmarshal(&o->x, p, mm ? XORFILTER_MMAP : 0) : Bloom_unmarshal(&o->b, p, mm ? BLOOM_BITMAP_MMAP : 0);
}
static void del(Fl *f) { if (f->x) Xorfilter_delete(f->x); if (f->b) Bloom_delete(f->b); f->x = 0; f->b = 0; }
static int find(Fl f, uint64_t v) { return f.x ? !!Xorfilter_contains(f.x, v) : !!Bloom_find(f.b, v); }
static int same1(bloom *a, bloom *b) { return a->m == b->m && a->k == b->k && a->salt == b->salt && a->size == b->size && a->bmsize == b->bmsize && a->e == b->e && !memcmp(a->bitmap, b->bitmap, a->bmsize); }
static int same(Fl a, Fl b, long upto) {
    if (a.x) { if (a.x->seed != b.x->seed || a.x->size != b.x->size || a.x->n != b.x->n || a.x->is_16 != b.x->is_16 || Xorfilter_bpe(a.x) != Xorfilter_bpe(b.x)) return 0; }
    else {
        static char d1[1 << 16], d2[1 << 16];
        if (a.b->typ != b.b->typ || a.b->n != b.b->n || a.b->e != b.b->e || strcmp(Bloom_name(a.b), Bloom_name(b.b)) || !Bloom_eq(a.b, b.b)) return 0;
        if (a.b->typ == BLOOM_TYPE_SCALE) { scalable_bloom *p = a.b->filter, *q = b.b->filter; if (p->len != q->len || p->scale != q->scale || p->r != q->r) return 0; for (uint32_t i = 0; i < p->len; i++) if (!same1(&p->bfa[i], &q->bfa[i])) return 0; }
        else if (!same1(a.b->filter, b.b->filter)) return 0;
        if (strcmp(Bloom_desc(a.b, d1, sizeof d1), Bloom_desc(b.b, d2, sizeof d2))) return 0;
    }
    for (long i = 0; i < upto; i++) if (find(a, val(i)) != find(b, val(i))) return 0;
    return 1;
}

static Fl A, L; static long AN; static int K, EI; static uint64_t seed; static long nx;
static unsigned char *img; static size_t isz;
static void slurp(const char *p) { free(img); img = 0; isz = 0; FILE *f = fopen(p, "rb"); if (!f) return; fseek(f, 0, 2); isz = ftell(f); rewind(f); img = malloc(isz + 1); if (fread(img, 1, isz, f) != isz) abort(); fclose(f); }
static void put(const char *p, const unsigned char *b, size_t n) { FILE *f = fopen(p, "wb"); if (!f || fwrite(b, 1, n, f) != n) abort(); fclose(f); }
static char dir[64]; static int ndir;
static Fl V[8]; static long VN[8];
static int cls(void) {   /* which version the destination holds: 0 none, v, -1 something else */
    if (access("dst", F_OK)) return 0;
    Fl f; int r = load(K, "dst", 0, &f); if (r < 0) return -1;
    int v = -1; for (int i = 1; i < 8; i++) if ((V[i].b || V[i].x) && same(V[i], f, 60)) { v = i; break; }
    del(&f); return v;
}
static void vd_begin(void) {
    K = vd_int(); AN = vd_int(); EI = vd_int(); seed = vd_u64(); rs = seed * 15485863 + 3; A.b = L.b = 0; A.x = L.x = 0; nx = AN;
    snprintf(dir, sizeof dir, "d%d", ++ndir); if (mkdir(dir, 0700) || chdir(dir)) abort();
    A = mk(K, AN, EI, 0); isz = 0; free(img); img = 0; memset(V, 0, sizeof V);
}
/* accept = the file yields a filter */
static int accepts(int mm) { Fl f; int r = load(K, "f", mm, &f); if (r == 0) { del(&f); return 1; } return (r < 0 && !f.b && !f.x) ? 0 : 2; }
static int nopen(void) { int n = 0; for (int i = 0; i < 256; i++) n += fcntl(i, F_GETFD) >= 0; return n; }
static void vd_op(const char *op) {
    if (vd_is(op, "save")) { int r = save(A, "f"); slurp("f"); vd_r(r); }
    else if (vd_is(op, "load")) {
        int mm = vd_int(); Fl f; int r = load(K, "f", mm, &f), s = -1;
        if (r == 0) { s = same(A, f, AN * 2 + 40); if (!mm) { del(&L); L = f; } else del(&f); } else if (f.b || f.x) s = -2;
        vd_beg(); vd_ki("r", r == 0 ? 0 : r < 0 ? -1 : 1); vd_ki("same", s); vd_end();
    } else if (vd_is(op, "loadm")) {
        int mm = vd_int(); Fl f; lwhat = vd_int(); lk = vd_int(); lhit = 0; llive = 0; int n0 = nopen(), s = -1;
        lin = 1; int r = load(K, "f", mm, &f); lin = 0;
        if (r == 0) { s = (f.b || f.x) ? same(A, f, AN * 2 + 40) : -3; lin = 1; del(&f); lin = 0; } else if (f.b || f.x) s = -2;
        vd_beg(); vd_ki("r", r == 0 ? 0 : r < 0 ? -1 : 1); vd_ki("same", s); vd_ki("hit", lhit); vd_ki("live", llive); vd_ki("fds", nopen() - n0); vd_end();
    } else if (vd_is(op, "grow")) {     /* both copies keep evolving alike */
        long n = vd_int(); Fl *two[2] = { &A, &L };
        if (!L.b) { vd_r(1); return; }
        for (int j = 0; j < 2; j++) { rs = seed * 77 + 1; for (long i = 0; i < n; i++) Bloom_probe(two[j]->b, val(nx + i)); }
        nx += n; int s = same(A, L, nx + 40); del(&L); vd_r(s);
    } else if (vd_is(op, "heal")) { put("f", img, isz); vd_r(0); }
    else if (vd_is(op, "flip")) { long p = vd_int(), m = vd_int(); unsigned char *c = malloc(isz); memcpy(c, img, isz); c[p % isz] ^= m; put("f", c, isz); free(c); vd_r(0); }
    else if (vd_is(op, "flips")) { size_t n; long *l = vd_ints(&n); unsigned char *c = malloc(isz); memcpy(c, img, isz); for (size_t i = 0; i + 1 < n; i += 2) { unsigned long p = l[i] % isz; c[p] = img[p] ^ (l[i+1] % 255 + 1); } put("f", c, isz); free(c); free(l); vd_r(0); }
    else if (vd_is(op, "swap")) { long p = vd_int() % isz, q = vd_int() % isz; unsigned char *c = malloc(isz); memcpy(c, img, isz); int d = c[p] != c[q]; unsigned char t = c[p]; c[p] = c[q]; c[q] = t; put("f", c, isz); free(c); vd_r(d); }
    else if (vd_is(op, "trunc")) { put("f", img, vd_int() % isz); vd_r(0); }
    else if (vd_is(op, "cut")) { long p = vd_int() % isz, n = 1 + vd_int() % (isz - p); unsigned char *c = malloc(isz); memcpy(c, img, p); memcpy(c + p, img + p + n, isz - p - n); put("f", c, isz - n); free(c); vd_r(0); }
    else if (vd_is(op, "ext")) { long n = vd_int(), v = vd_int(); unsigned char *c = malloc(isz + n); memcpy(c, img, isz); memset(c + isz, v, n); put("f", c, isz + n); free(c); vd_r(0); }
    else if (vd_is(op, "flipall")) { long st = vd_int(), off = vd_int(), bad = 0; int fd = open("f", O_RDWR);
        for (unsigned long p = off; p < isz; p += st) for (int b = 0; b < 9; b++) { unsigned char c = b < 8 ? img[p] ^ (1 << b) : ~img[p]; if (pwrite(fd, &c, 1, p) != 1) abort(); bad += accepts((p + b) & 1) != 0; if (pwrite(fd, img + p, 1, p) != 1) abort(); }
        close(fd); vd_r(bad); }
    else if (vd_is(op, "truncall")) { long st = vd_int(), bad = 0; int fd = open("f", O_RDWR); for (long n = (long)isz - 1; n >= 0; n = n < 200 || n > (long)isz - 200 ? n - 1 : n - st) { if (ftruncate(fd, n)) abort(); bad += accepts(n & 1) != 0; } close(fd); put("f", img, isz); vd_r(bad); }
    else if (vd_is(op, "extall")) { long m = vd_int(), bad = 0; int fd = open("f", O_RDWR | O_APPEND); for (long n = 1; n <= m; n++) { unsigned char c = n < m / 2 ? 0 : n; if (write(fd, &c, 1) != 1) abort(); bad += accepts(n & 1) != 0; } close(fd); put("f", img, isz); vd_r(bad); }
    /* ---- B05: save version v over "dst" with a fault at call k */
    else if (vd_is(op, "put")) {
        int v = vd_int(); fk = vd_int(); fmode = vd_int(); int st, r = 0, pp[2]; static char log[1 << 16]; long ln = 0, n;
        if (!V[v].b && !V[v].x) { rs = seed * 31 + v; V[v] = mk(K, AN + v * 3, EI, v * 1000); }
        int old = cls(); if (pipe(pp)) abort(); fflush(stdout);
        pid_t pid = fork();
        if (!pid) { close(pp[0]); outfd = pp[1]; ncall = nfds = nids = 0; id_of("dst"); armed = 1; r = save(V[v], "dst"); armed = 0; _exit(r == 0 ? 10 : r < 0 ? 11 : 12); }
        close(pp[1]); while ((n = read(pp[0], log + ln, sizeof log - 1 - ln)) > 0) ln += n; log[ln] = 0; close(pp[0]); waitpid(pid, &st, 0);
        if (!WIFEXITED(st)) { fprintf(stderr, "save died, status %x\n", st); exit(3); }
        st = WEXITSTATUS(st); if (st != 10 && st != 11 && st != 12 && st != 77) { fprintf(stderr, "save exit %d\n", st); exit(3); }
        vd_beg(); vd_ki("r", st == 10 ? 0 : st == 11 ? -1 : st == 12 ? 1 : -99); vd_ki("was", old); vd_ki("now", cls());
        vd_key("calls"); putchar('['); char *p = log; int first = 1;
        while (*p) { long q[5]; for (int i = 0; i < 5; i++) q[i] = strtol(p, &p, 10); while (*p == '\n') p++; printf("%s[%ld,%ld,%ld,%ld,%ld]", first ? "" : ",", q[0], q[1], q[2], q[3], q[4]); first = 0; }
        putchar(']'); vd_end();
        /* temporary leftovers of crashed saves are removed so that runs stay independent */
        DIR *d = opendir("."); struct dirent *de; while ((de = readdir(d))) if (strncmp(de->d_name, "dst.", 4) == 0) unlink(de->d_name); closedir(d);
    } else vd_r(-9);
}
static void vd_finish(void) {
    del(&A); del(&L); for (int i = 0; i < 8; i++) del(&V[i]);
    DIR *d = opendir("."); struct dirent *de; while ((de = readdir(d))) if (de->d_name[0] != '.') unlink(de->d_name); closedir(d);
    if (chdir("..")) abort(); rmdir(dir);
}
