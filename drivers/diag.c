/* diagnostics: standard output and standard error are the same file */
#include "vd.h"
#include <setjmp.h>
#include <fcntl.h>
#include <unistd.h>
#include "error.h"
static jmp_buf jb; static int in;
void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int c) { if (in) longjmp(jb, c + 1); __real_exit(c); }
static FILE *o, *e, *ro, *re; static int fd; static off_t at; static char *prog;
static void vd_begin(void) {
    char *p = vd_str(); prog = *p ? p : 0; size_t n; (void)n;
    /* <<0>> arrives as one NUL byte, <<>> as none: told apart by the first field */
    program_name = vd_int() ? p : 0; prog = p;
    fd = open("diag.out", O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600); at = 0;
    ro = stdout; re = stderr; o = fdopen(dup(fd), "a"); e = fdopen(dup(fd), "a");
    setvbuf(o, 0, _IOFBF, 65536); setvbuf(e, 0, _IOFBF, 4096);
}
static void vd_finish(void) { fclose(o); fclose(e); close(fd); free(prog); program_name = 0; unlink("diag.out"); }
static void vd_op(const char *op) {
    char *d = vd_str(); int rep = vd_int(), fmt = vd_int(), err = vd_int(), status = vd_int(); size_t k = strlen(d);
    char *t = malloc(k * rep + 1); for (int i = 0; i < rep; i++) memcpy(t + i * k, d, k); t[k * rep] = 0;
    int x; stdout = o; stderr = e; in = 1;
    if (!(x = setjmp(jb))) {
        if (vd_is(op, "print")) fputs(t, stdout);
        else if (vd_is(op, "warn")) { if (fmt) warn("%d: %s", fmt, t); else warn("%s", t); }
        else if (vd_is(op, "die")) { if (fmt) die("%d: %s", fmt, t); else die("%s", t); }
        else { if (fmt) error(status, err, "%d: %s", fmt, t); else error(status, err, "%s", t); }
    }
    in = 0; stdout = ro; stderr = re; static char b[1 << 16]; ssize_t n = pread(fd, b, sizeof b, at); at += n;
    vd_beg(); vd_ki("x", x); vd_kb("t", b, n); vd_end(); free(t); free(d);
}
