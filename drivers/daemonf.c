/* becoming a background process; everything happens in children of the driver, in its directory */
#include "vd.h"
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <signal.h>
#include <poll.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <limits.h>
#include "utils/daemon.h"
static int fail, forks, inside;
pid_t __real_fork(void);
pid_t __wrap_fork(void) { if (inside && ++forks == fail) { errno = EAGAIN; return -1; } return __real_fork(); }
static void vd_begin(void) { vd_int(); mkdir("sub", 0700); mkdir("sub/deep", 0700); }
static void vd_finish(void) {}
static int nfds(void) { int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
struct rep { int r, same, leader, oldsess, um, null[3], extra; char cwd[PATH_MAX]; };
static void vd_op(const char *op) {
    (void)op; char *pwd = vd_str(); fail = vd_int(); int um = vd_int(), closed = vd_int(); int p[2]; char full[PATH_MAX] = "";
    if (*pwd && !realpath(pwd, full)) exit(9);
    if (pipe(p)) exit(9);
    fflush(stdout); pid_t c = __real_fork();
    if (!c) {
        setsid(); int w = fcntl(p[1], F_DUPFD, 60); close(p[0]); close(p[1]); int o = open("old", O_CREAT | O_RDWR, 0600); for (int i = 0; i < 3; i++) dup2(o, i);
        if (o > 2) close(o);
        pid_t me = getpid(); pid_t sid = getsid(0); umask(um); struct rep x; memset(&x, 0, sizeof x);
        int n0 = nfds(); for (int i = 0; i < 3; i++) if (closed >> i & 1) close(i);
        inside = 1; int r = daemonize(*pwd ? pwd : 0); inside = 0;
        for (int i = 0; i < 3; i++) if (r != 0 && (closed >> i & 1)) open("old", O_RDWR);
        x.r = r; x.same = getpid() == me; x.leader = getsid(0) == getpid(); x.oldsess = getsid(0) == sid; x.extra = nfds() - n0; x.um = umask(0); if (!getcwd(x.cwd, sizeof x.cwd)) x.cwd[0] = 0;
        struct stat a, b; stat("/dev/null", &b);
        for (int i = 0; i < 3; i++) { char ch = 0; x.null[i] = !fstat(i, &a) && S_ISCHR(a.st_mode) && a.st_rdev == b.st_rdev && (i ? write(i, "x", 1) == 1 : read(0, &ch, 1) == 0); }
        if (write(w, &x, sizeof x) < 0) {} _exit(7);
    }
    close(p[1]); int st = 0, reports = 0; struct rep x, y; memset(&y, 0, sizeof y); y.r = 99; size_t at = 0; ssize_t k;
    for (;;) {
        struct pollfd f = {p[0], POLLIN, 0}; if (poll(&f, 1, 20000) <= 0) break;
        k = read(p[0], (char *)&x + at, sizeof x - at); if (k <= 0) break; at += k; if (at == sizeof x) { at = 0; reports++; y = x; }
    }
    close(p[0]); waitpid(c, &st, 0);
    vd_beg(); vd_ki("reports", reports); vd_ki("first", WIFEXITED(st) ? WEXITSTATUS(st) : -1); vd_ki("r", y.r); vd_ki("same", y.same); vd_ki("leader", y.leader); vd_ki("oldsess", y.oldsess);
    vd_ki("extra", y.extra); vd_ki("um", y.um); long z[3] = {y.null[0], y.null[1], y.null[2]}; vd_kl("null", z, 3); vd_ks("cwd", y.cwd); vd_ks("full", full); vd_end(); free(pwd);
}
