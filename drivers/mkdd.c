/* mkdirhier in a scratch directory. */
#include "vd.h"
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <limits.h>
#include <sys/stat.h>
#include "utils/mkdirhier.h"
static char root[64]; static int armed, ncall, nstat, fk, fmode;   /* at the fk-th mkdir: 1 EIO, 2 ENOSPC, 3 someone else makes it first; 4: the fk-th stat fails */
static int bad(const char *p) { if (*p == '/' && strncmp(p, root, strlen(root))) { errno = EROFS; return 1; } return 0; }
int __real_mkdir(const char*, mode_t); int __real_mkdirat(int, const char*, mode_t); int __real_stat(const char*, struct stat*); int __real_lstat(const char*, struct stat*);
static int made(const char *p, mode_t m) {
    if (armed && bad(p)) return -1;
    if (armed && ++ncall == fk && fmode < 4) { if (fmode == 3) __real_mkdir(p, m); else { errno = fmode == 1 ? EIO : ENOSPC; return -1; } }
    return __real_mkdir(p, m);
}
int __wrap_mkdir(const char *p, mode_t m) { return made(p, m); }
int __wrap_mkdirat(int d, const char *p, mode_t m) { if (d == AT_FDCWD) return made(p, m); return __real_mkdirat(d, p, m); }
static int fs(void) { if (armed && ++nstat == fk && fmode == 4) { errno = EACCES; return 1; } return 0; }
int __wrap_stat(const char *p, struct stat *s) { return fs() ? -1 : __real_stat(p, s); }
int __wrap_lstat(const char *p, struct stat *s) { return fs() ? -1 : __real_lstat(p, s); }
static char *ent[512]; static int nent;
static int cmp(const void *a, const void *b) { return strcmp(*(char *const*)a, *(char *const*)b); }
static void scan(const char *rel) {
    char p[PATH_MAX + 300]; snprintf(p, sizeof p, "%s%s%s", root, *rel ? "/" : "", rel);
    DIR *d = opendir(p); struct dirent *e; if (!d) return;
    while ((e = readdir(d))) {
        if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
        char q[PATH_MAX + 600]; snprintf(q, sizeof q, "%s%s%s", rel, *rel ? "/" : "", e->d_name);
        char f[PATH_MAX + 700]; snprintf(f, sizeof f, "%s/%s", root, q); struct stat st; if (__real_lstat(f, &st)) continue;
        if (nent < 512 && asprintf(&ent[nent], "%c%03o%s", S_ISDIR(st.st_mode) ? 'd' : S_ISLNK(st.st_mode) ? 'l' : 'f', S_ISDIR(st.st_mode) ? (int)(st.st_mode & 0777) : 0, q) > 0) nent++;
        if (S_ISDIR(st.st_mode)) scan(q);
    }
    closedir(d);
}
static void list(void) {
    nent = 0; scan(""); qsort(ent, nent, sizeof *ent, cmp);
    vd_key("ls"); putchar('[');
    for (int i = 0; i < nent; i++) { char *s = ent[i]; printf("%s[%d,%ld,[", i ? "," : "", s[0] == 'd' ? 1 : s[0] == 'l' ? 3 : 2, strtol((char[]){ s[1], s[2], s[3], 0 }, 0, 8)); for (char *q = s + 4; *q; q++) printf("%s%d", q > s + 4 ? "," : "", *q); printf("]]"); free(s); }
    putchar(']');
}
static void wipe(const char *d) {
    DIR *D = opendir(d); struct dirent *e; if (!D) return;
    if (fchdir(dirfd(D))) { closedir(D); return; }
    while ((e = readdir(D))) { if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue; if (unlink(e->d_name)) { wipe(e->d_name); if (rmdir(e->d_name)) {} } }
    closedir(D); if (chdir("..")) exit(9);
}
static void vd_begin(void) { umask(vd_int()); strcpy(root, "/tmp/vmkdXXXXXX"); if (!mkdtemp(root) || chmod(root, 0700) || chdir(root)) exit(9); }
static void vd_finish(void) { if (strncmp(root, "/tmp/vmkd", 9) || chdir("/tmp")) exit(9); wipe(root); if (chdir("/")) exit(9); rmdir(root); }
static void vd_op(const char *op) {
    int r = 0;
    if (vd_is(op, "mk")) {
        char *s = vd_str(); long abs = vd_int(), mode = vd_int(); fk = vd_int(); fmode = vd_int();
        char *f = malloc(strlen(root) + strlen(s) + 2); sprintf(f, "%s%s%s", abs ? root : "", abs ? "/" : "", s);
        ncall = nstat = 0; armed = 1; r = mkdirhier(f, mode); armed = 0;
        vd_beg(); vd_ki("r", r); vd_ki("hit", fk > 0 && (fmode == 4 ? nstat : ncall) >= fk); vd_ki("len", strlen(f)); list(); vd_end(); free(f); free(s); return;
    }
    char *p = vd_str(), *t = 0;
    if (vd_is(op, "file")) { int fd = open(p, O_CREAT|O_EXCL|O_WRONLY, 0600); r = fd < 0 ? -1 : close(fd); }
    else if (vd_is(op, "dir")) { r = __real_mkdir(p, 0700); if (!r) r = chmod(p, 0700); }
    else if (vd_is(op, "link")) { t = vd_str(); char f[400]; snprintf(f, sizeof f, "%s/%s", root, t); r = symlink(f, p); }
    vd_beg(); vd_ki("r", r); list(); vd_end(); free(p); free(t);
}
