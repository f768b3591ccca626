/* Log rotation in a scratch directory; calls that change files can fail or be the last one. */
#include "vd.h"
#include <unistd.h>
#include <fcntl.h>
#include <stdarg.h>
#include <dirent.h>
#include <limits.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include "utils/rotatefile.h"
static char root[64], top[PATH_MAX], name[PATH_MAX + 64]; /* scratch directory; directory of the log (relative); argument given to the code */
static const char *base;
static int armed, ncall, fk, fmode;     /* fault at call fk: 1 EIO, 2 EACCES, 3 end before, 4 end after */
static int pre(const char *p) {
    if (!armed) return 0;
    if (p && ((*p == '/' && strncmp(p, root, strlen(root))) || strstr(p, ".."))) { fprintf(stderr, "outside scratch: %s\n", p); _exit(99); }
    if (++ncall != fk) return 0;
    if (fmode == 3) _exit(77);
    if (fmode == 1 || fmode == 2) { errno = fmode == 1 ? EIO : EACCES; return 1; }
    return 0;
}
static void post(void) { if (armed && ncall == fk && fmode == 4) _exit(77); }
#define W(call, p) do { if (pre(p)) return -1; int r_ = call; int e_ = errno; post(); errno = e_; return r_; } while (0)
int __real_rename(const char*, const char*); int __real_unlink(const char*); int __real_remove(const char*); int __real_link(const char*, const char*);
int __real_renameat(int, const char*, int, const char*); int __real_unlinkat(int, const char*, int); int __real_stat(const char*, struct stat*); int __real_lstat(const char*, struct stat*); int __real_access(const char*, int);
int __wrap_rename(const char *a, const char *b) { if (armed && strstr(b, "..")) _exit(99); W(__real_rename(a, b), a); }
int __wrap_renameat(int f, const char *a, int g, const char *b) { W(__real_renameat(f, a, g, b), a); }
int __wrap_unlink(const char *a) { W(__real_unlink(a), a); }
int __wrap_unlinkat(int f, const char *a, int g) { W(__real_unlinkat(f, a, g), a); }
int __wrap_remove(const char *a) { W(__real_remove(a), a); }
int __wrap_link(const char *a, const char *b) { W(__real_link(a, b), a); }
int __wrap_stat(const char *a, struct stat *s) { W(__real_stat(a, s), a); }
int __wrap_lstat(const char *a, struct stat *s) { W(__real_lstat(a, s), a); }
int __wrap_access(const char *a, int m) { W(__real_access(a, m), a); }

static const char *bases[] = { "log", "a b%d%s.txt", "log.1", ".x", "log" };
static char *fn(long i) { static char b[300]; if (i < 0) snprintf(b, sizeof b, "%s", base); else snprintf(b, sizeof b, "%s.%ld", base, i); return b; }
static const char *decoys[] = { ".", ".00", ".1x", "x", "-1", ".1.1", ".~0", ".+1" };
static int put(const char *n, long id, long mb, long extra) {
    unlink(n); rmdir(n); int fd = open(n, O_CREAT|O_WRONLY|O_TRUNC, 0600); if (fd < 0) return -1;
    char b[32]; int l = snprintf(b, sizeof b, "%ld\n", id); if (write(fd, b, l) != l) return -1;
    if (mb || extra) if (ftruncate(fd, mb * 1048576L + extra)) return -1;
    return close(fd);
}
static long id_of(const char *n) {
    struct stat st; if (lstat(n, &st)) return -1; if (S_ISDIR(st.st_mode)) return -2;
    char b[32] = ""; int fd = open(n, O_RDONLY); if (fd < 0) return -3; if (read(fd, b, 31) < 0) b[0] = 0; close(fd); return atol(b);
}
static int cmp(const void *a, const void *b) { long x = *(const long*)a, y = *(const long*)b; return x < y ? -1 : x > y; }
/* every name in the directory that is the log or a copy: pairs (index, id); other entries counted */
static void list(void) {
    long l[2000], n = 0, alien = 0; DIR *d = opendir("."); struct dirent *e; size_t bl = strlen(base);
    while ((e = readdir(d))) {
        char *s = e->d_name; long k = -2;
        if (!strcmp(s, ".") || !strcmp(s, "..")) continue;
        for (size_t i = 0; i < sizeof decoys / sizeof *decoys; i++) { char b[300]; snprintf(b, sizeof b, "%s%s", base, decoys[i]); if (!strcmp(b, s)) { k = -3; if (id_of(s) != 9000 + (long)i) alien++; else alien -= 1000; } }
        if (k == -3) continue;
        if (!strncmp(s, base, bl) && (s[bl] == 0 || s[bl] == '.')) { if (!s[bl]) k = -1; else { char *z; k = strtol(s + bl + 1, &z, 10); if (*z || z == s + bl + 1 || k < 0) k = -2; } }
        if (k == -2) { alien++; continue; }
        if (n < 1998) { l[n++] = k; l[n++] = id_of(s); }
    }
    closedir(d); qsort(l, n / 2, 2 * sizeof *l, cmp);
    alien += 1000 * (long)(sizeof decoys / sizeof *decoys);
    vd_key("ls"); putchar('['); for (long i = 0; i < n; i += 2) printf("%s[%ld,%ld]", i ? "," : "", l[i], l[i+1]); putchar(']'); vd_ki("alien", alien);
}
static void vd_begin(void) {
    long nm = vd_int(), form = vd_int(); base = bases[nm];
    snprintf(root, sizeof root, "/tmp/vrotXXXXXX"); if (!mkdtemp(root) || chdir(root)) exit(9);
    if (nm == 4) {      /* as deep as names go: form is the length of the path */
        size_t l = 0, want = form; name[0] = 0;
        while (l + 1 + strlen(base) < want) { size_t k = want - strlen(base) - l - 1; if (k > 240) k = k < 250 ? 120 : 240; memset(name + l, 'd', k); name[l+k] = 0; if (mkdir(name + l, 0700) || chdir(name + l)) exit(9); name[l+k] = '/'; l += k + 1; name[l] = 0; }
        strcpy(name + l, base);
    } else if (form == 0) strcpy(name, base);
    else if (form == 1) snprintf(name, sizeof name, "%s/%s", root, base);
    else { if (mkdir("sub", 0700) || chdir("sub")) exit(9); snprintf(name, sizeof name, "./sub//%s", base); }
    for (size_t i = 0; i < sizeof decoys / sizeof *decoys; i++) { char b[300]; snprintf(b, sizeof b, "%s%s", base, decoys[i]); put(b, 9000 + i, 0, 0); }
}
static void vd_op(const char *op) {
    if (vd_is(op, "put")) { long i = vd_int(), id = vd_int(), mb = vd_int(), x = vd_int(); vd_beg(); vd_ki("r", put(fn(i), id, mb, x)); list(); vd_end(); return; }
    if (vd_is(op, "dir")) { char *n = fn(vd_int()); unlink(n); vd_beg(); vd_ki("r", mkdir(n, 0700)); list(); vd_end(); return; }
    if (vd_is(op, "del")) { char *n = fn(vd_int()); if (unlink(n)) rmdir(n); vd_beg(); vd_ki("r", 0); list(); vd_end(); return; }
    long n = vd_int(), mb = 0, sz = vd_is(op, "rots"); if (sz) mb = vd_int();
    long k = vd_int(), m = vd_int(); int pp[2]; if (pipe(pp)) exit(9);
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        if (chdir(root)) _exit(9);
        armed = 1; fk = k; fmode = m;
        int r = sz ? rotate_filename_by_size(name, n, mb, 0) : rotate_filename(name, n, 0);
        armed = 0; if (write(pp[1], &r, sizeof r) != sizeof r) _exit(9);
        _exit(ncall >= fk && fk ? 78 : 0);
    }
    int st, r = -7777, e; while (waitpid(p, &st, 0) < 0 && errno == EINTR);
    e = WIFEXITED(st) ? WEXITSTATUS(st) : 255; close(pp[1]); if (e == 0 || e == 78) { if (read(pp[0], &r, sizeof r) != sizeof r) exit(9); } close(pp[0]);
    if (e != 0 && e != 77 && e != 78) { fprintf(stderr, "status %d\n", e); exit(9); }
    /* how: 0 ran without a fault, 1 the fault was injected and the call returned, 2 ended inside */
    vd_beg(); vd_ki("r", r); vd_ki("how", e == 77 ? 2 : e == 78); list(); vd_end();
}
static void wipe(const char *d) { /* scratch directory made by mkdtemp only */
    DIR *D = opendir(d); struct dirent *e; if (!D) return;
    if (fchdir(dirfd(D))) { closedir(D); return; }
    while ((e = readdir(D))) { if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue; if (unlink(e->d_name)) { wipe(e->d_name); if (rmdir(e->d_name)) {} } }
    closedir(D); if (chdir("..")) exit(9);
}
static void vd_finish(void) { if (strncmp(root, "/tmp/vrot", 9)) exit(9); if (chdir("/tmp")) exit(9); wipe(root); if (chdir("/")) exit(9); rmdir(root); }
