/* Tree walks over a scratch directory. */
#include "vd.h"
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <limits.h>
#include <sys/stat.h>
#include "fts.h"
#define ftw my_ftw
#include "ftw.h"
extern FTS *fts_open(char *const *, int, int (*)(const FTSENT **, const FTSENT **));
extern FTSENT *fts_read(FTS *); extern FTSENT *fts_children(FTS *, int); extern int fts_set(FTS *, FTSENT *, int); extern int fts_close(FTS *);
static char root[64]; static int home, opts, ord, priv, fds0, ended; static FTS *F; static FTSENT *cur, *kids; static long num;
static char *av[16]; static int ac; static struct stat cwd0; static dev_t dev0;
/* what the library holds, and memory running out in the next call */
static int inside, armed = -1, hit, live;
void *__real_malloc(size_t); void *__real_realloc(void *, size_t); void *__real_calloc(size_t, size_t); void __real_free(void *);
static int out(void) { if (!inside || armed < 0 || armed-- > 0) return 0; hit = 1; errno = ENOMEM; return 1; }
void *__wrap_malloc(size_t n) { if (out()) return 0; live += inside; return __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t n) { if (out()) return 0; live += inside; return __real_calloc(a, n); }
void *__wrap_realloc(void *p, size_t n) { if (out()) return 0; live += inside && !p; return __real_realloc(p, n); }
void __wrap_free(void *p) { live -= inside && p; __real_free(p); }
#define IN(x) (inside = 1, hit = 0, (x), inside = 0, armed = -1)
static int asc(const FTSENT **a, const FTSENT **b) { return strcmp((*a)->fts_name, (*b)->fts_name); }
static int desc(const FTSENT **a, const FTSENT **b) { return -asc(a, b); }
static int nfds(void) { int n = 0; for (int i = 0; i < 256; i++) n += fcntl(i, F_GETFD) >= 0; return n; }
static int same_cwd(void) { struct stat s; return !stat(".", &s) && s.st_ino == cwd0.st_ino && s.st_dev == cwd0.st_dev; }
static void wipe(const char *d) {
    chmod(d, 0700); DIR *D = opendir(d); struct dirent *e; if (!D) return;
    if (fchdir(dirfd(D))) { closedir(D); return; }
    while ((e = readdir(D))) { if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue; if (unlink(e->d_name)) { wipe(e->d_name); if (rmdir(e->d_name)) {} } }
    closedir(D); if (chdir("..")) exit(9);
}
static int mkparts(char *p) {   /* enter the parent of p, made step by step (names may be longer than PATH_MAX) */
    char *s; if (chdir(root)) exit(9);
    while ((s = strchr(p, '/'))) { *s = 0; if (chdir(p)) exit(9); *s = '/'; p = s + 1; }
    return 0;
}
static void vd_begin(void) {
    char *tree = vd_str(), *rt = vd_str(); int lg = vd_int(), com = vd_int(), noc = vd_int(), nos = vd_int(), dot = vd_int(), xd = vd_int(); ord = vd_int();
    opts = (lg ? FTS_LOGICAL : FTS_PHYSICAL) | (com ? FTS_COMFOLLOW : 0) | (noc ? FTS_NOCHDIR : 0) | (nos ? FTS_NOSTAT : 0) | (dot ? FTS_SEEDOT : 0) | (xd ? FTS_XDEV : 0);
    strcpy(root, "/tmp/vftsXXXXXX"); if (!mkdtemp(root) || chmod(root, 0755) || chdir(root)) exit(9);
    priv = strchr(tree, 'u') == tree || strstr(tree, "\nu ") || strstr(tree, "\nx ") || strchr(tree, 'x') == tree;
    char *mod[64]; int nm = 0;
    for (char *l = strtok(tree, "\n"); l; l = strtok(0, "\n")) {
        char k = l[0], *p = l + 2, *t = strchr(p, '>'); if (t) *t++ = 0;
        mkparts(p); char *b = strrchr(p, '/'); b = b ? b + 1 : p;
        if (k == 'f') { int fd = open(b, O_CREAT|O_EXCL|O_WRONLY, 0644); if (fd < 0) exit(9); close(fd); }
        else if (k == 'p') { if (mkfifo(b, 0644)) exit(9); }
        else if (k == 'l') { char x[PATH_MAX]; snprintf(x, sizeof x, "%s/%s", root, t); if (symlink(x, b)) exit(9); }
        else { if (mkdir(b, 0755)) exit(9); if (k != 'd' && nm < 64) { mod[nm++] = p; mod[nm++] = k == 'u' ? "0" : "4"; } }
    }
    for (int i = nm - 2; i >= 0; i -= 2) { if (chdir(root) || chmod(mod[i], *mod[i+1] == '0' ? 0 : 0444)) exit(9); }
    if (chdir(root)) exit(9);
    ac = 0; for (char *l = strtok(rt, "\n"); l && ac < 15; l = strtok(0, "\n")) { if (asprintf(&av[ac], "%s%s", *l == '/' ? root : "", l) < 0) exit(9); ac++; }
    av[ac] = 0; free(tree); free(rt);
    if (stat(".", &cwd0)) exit(9); home = open(".", O_RDONLY); F = 0; cur = kids = 0; num = 0; ended = 0;
    fds0 = nfds();
    if (priv && seteuid(65534)) exit(9);
}
static int rerr;
static const char *strip(const char *p) { size_t n = strlen(root); return !strncmp(p, root, n) ? p + n : p; }
static void show(FTSENT *e, int r) {
    struct stat a, b; int acc = 2, st = 2;
    vd_beg(); vd_ki("info", r); vd_ki("hit", hit); vd_ki("err", rerr);
    if (e) {
        /* entry reachable through fts_accpath from here, and the same as fts_path from where the walk began */
        if (e->fts_info != FTS_NS && e->fts_info != FTS_NSOK && strlen(e->fts_path) < 4000) {
            acc = !lstat(e->fts_accpath, &a) && !fstatat(home, e->fts_path, &b, AT_SYMLINK_NOFOLLOW) && a.st_ino == b.st_ino && a.st_dev == b.st_dev;
            if (!(opts & FTS_NOSTAT) && acc) {
                st = e->fts_statp->st_ino == a.st_ino && e->fts_statp->st_mode == a.st_mode;
                if (!st && S_ISLNK(a.st_mode) && !stat(e->fts_accpath, &b)) st = e->fts_statp->st_ino == b.st_ino && e->fts_statp->st_mode == b.st_mode;
            }
        }
        vd_ki("lev", e->fts_level); vd_ks("path", strip(e->fts_path)); vd_ks("name", e->fts_level > 0 ? e->fts_name : "");
        vd_ki("lens", e->fts_pathlen == strlen(e->fts_path) && e->fts_namelen == strlen(e->fts_name));
        vd_ki("acc", acc); vd_ki("st", st); vd_ki("num", e->fts_number); vd_ki("up", e->fts_parent ? e->fts_parent->fts_level : -9);
        vd_ki("cyc", e->fts_info == FTS_DC && e->fts_cycle ? e->fts_cycle->fts_level : -1);
        if (!e->fts_number) e->fts_number = ++num;
    }
    vd_ki("home", same_cwd()); vd_end();
}
static int ftwcb(const char *p, const struct stat *s, int k) { (void)s; k = k == FTW_F ? 0 : k == FTW_D ? 1 : k == FTW_DNR ? 2 : k == FTW_NS ? 3 : k == FTW_SL ? 4 : 9; printf("%s[%d,[", num++ ? "," : "", k); p = strip(p); for (const char *q = p; *q; q++) printf("%s%d", q > p ? "," : "", (unsigned char)*q); printf("]]"); return 0; }
static void vd_op(const char *op) {
    if (vd_is(op, "open")) { live = 0; errno = 0; IN(F = fts_open(av, opts, ord == 1 ? asc : ord == 2 ? desc : 0)); int er = errno; vd_beg(); vd_ki("r", F != 0); vd_ki("hit", hit); vd_ki("err", F ? 0 : er); vd_ki("live", F ? 0 : live); vd_ki("fds", F || nfds() == fds0); vd_ki("home", same_cwd()); vd_end(); }
    else if (vd_is(op, "read")) { errno = 0; cur = 0; if (F) IN(cur = fts_read(F)); rerr = cur ? 0 : errno; ended = !cur; kids = 0; show(cur, cur ? cur->fts_info : errno ? -1 : 0); }
    else if (vd_is(op, "set")) { int i = vd_int(); vd_r(cur ? (F ? fts_set(F, cur, i) : 0) : -5); }
    else if (vd_is(op, "kids")) {
        int n = vd_int(); errno = 0; kids = 0; hit = 0; if (!ended && F) IN(kids = fts_children(F, n ? FTS_NAMEONLY : 0));   /* nothing is current after the end */
        int e = errno;
        vd_beg(); vd_ki("r", kids ? 1 : e ? -1 : 0); vd_ki("hit", hit); vd_ki("err", kids ? 0 : e); vd_key("ks"); putchar('[');
        for (FTSENT *k = kids; k; k = k->fts_link) { printf("%s[", k == kids ? "" : ","); const char *z = k->fts_level > 0 ? k->fts_name : strip(k->fts_name); for (int i = 0; z[i]; i++) printf("%s%d", i ? "," : "", (unsigned char)z[i]); putchar(']'); }
        putchar(']'); vd_ki("home", same_cwd()); vd_end();
    }
    else if (vd_is(op, "kset")) { char *n = vd_str(); int i = vd_int(), r = -5; for (FTSENT *k = kids; k; k = k->fts_link) if (!strcmp(k->fts_name, n)) r = fts_set(F, k, i); vd_r(r); free(n); }
    else if (vd_is(op, "away")) {   /* someone moves the directory we are in, or the one above it */
        int up = vd_int(), r = -1; char *p = cur && cur->fts_level > 0 ? strdup(cur->fts_path) : 0, *z;
        if (p) { for (int i = 0; i <= up && (z = strrchr(p, '/')); i++) *z = 0; char b[96]; snprintf(b, sizeof b, "%s/.away", root); if (*p && strcmp(p, ".")) r = renameat(home, p, home, b); free(p); }
        (void)r; vd_r(0);
    }
    else if (vd_is(op, "close")) { int r = 0; if (F) IN(r = fts_close(F)); F = 0; cur = kids = 0; vd_beg(); vd_ki("r", r); vd_ki("home", same_cwd()); vd_ki("fds", nfds() == fds0); vd_ki("live", live); vd_end(); }
    else if (vd_is(op, "short")) { armed = vd_int(); vd_r(0); }
    else { vd_beg(); num = 0; vd_key("v"); putchar('['); int r = my_ftw(av[0], ftwcb, 5); putchar(']'); vd_ki("r", r); vd_ki("home", same_cwd()); vd_ki("fds", nfds() == fds0); vd_end(); }
}
static void vd_finish(void) {
    if (F) fts_close(F);
    if (priv && seteuid(0)) exit(9);
    for (int i = 0; i < ac; i++) free(av[i]);
    close(home); if (strncmp(root, "/tmp/vfts", 9) || chdir("/tmp")) exit(9);
    wipe(root); if (chdir("/")) exit(9); rmdir(root);
}
