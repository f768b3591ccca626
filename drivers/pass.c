/* passwords: the terminal is a pseudo terminal of our own */
#include "vd.h"
#include <pthread.h>
#include <unistd.h>
#include <fcntl.h>
#include <termios.h>
#include <pty.h>
#include <poll.h>
#include <time.h>
#include <dirent.h>
#include "utils/readpass.h"
static int how, twice, ma = -1, sl = -1; static FILE *pin, *rin, *rerr;
FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *n, const char *m) {
    if (strcmp(n, "/dev/tty")) return __real_fopen(n, m);
    if (how != 2) { errno = ENXIO; return 0; }
    return fdopen(dup(sl), m);
}
static int nfds(void) { int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
static void vd_begin(void) {
    how = vd_int(); twice = vd_int(); size_t n; uint8_t *d = vd_bytes(&n, 0); rin = stdin; rerr = stderr;
    if (openpty(&ma, &sl, 0, 0, 0)) { perror("openpty"); exit(9); }
    fcntl(ma, F_SETFL, O_NONBLOCK);
    if (how == 1) pin = fdopen(dup(sl), "r");
    else { FILE *t = tmpfile(); fwrite(d, 1, n, t); fflush(t); rewind(t); pin = t; }
    free(d);
}
static void vd_finish(void) { fclose(pin); close(ma); close(sl); }
static uint8_t *in; static size_t nin; static volatile int stop; static char echo[1 << 16]; static size_t ne;
static void drain(void) { ssize_t k; while (ne < sizeof echo && (k = read(ma, echo + ne, sizeof echo - ne)) > 0) ne += k; }
static char said[1 << 12]; static volatile size_t nsaid;
static ssize_t hear(void *c, const char *p, size_t n) { (void)c; for (size_t i = 0; i < n && nsaid + 1 < sizeof said; i++) said[nsaid++] = p[i]; said[nsaid] = 0; return n; }
static int count(const char *w) { int n = 0; for (const char *t = said; (t = strstr(t, w)); t += strlen(w)) n++; return n; }
static void type(const uint8_t *p, size_t n) {
    struct timespec ts = {0, 200000};
    for (size_t at = 0; at < n && !stop;) { ssize_t k = write(ma, p + at, n - at > 64 ? 64 : n - at); if (k > 0) at += k; drain(); if (k < 0) nanosleep(&ts, 0); }
}
/* types a line when asked for one (short input at once), and ends the input for whoever asks for more;
 * waits, but not forever, for the echo to be off and for the question */
static void *typist(void *a) {
    (void)a; struct termios t; struct timespec ts = {0, 200000};
    for (int i = 0; i < 3000 && !stop; i++) { if (!tcgetattr(sl, &t) && !(t.c_lflag & ECHO)) break; nanosleep(&ts, 0); }
    size_t at = 0; int lines = 0;
    if (nin <= 64) { type(in, nin); for (; at < nin; at++) lines += in[at] == 10; }
    while (!stop) {
        for (int i = 0; i < 3000 && !stop && count("PROMPT: ") + count("CONFIRM: ") <= lines; i++) { drain(); nanosleep(&ts, 0); }
        if (stop) break;
        size_t b = at; while (b < nin && in[b++] != 10);
        if (b > at) type(in + at, b - at); else type((const uint8_t *)"\4", 1);
        at = b; lines++;
    }
    return 0;
}
static void vd_op(const char *op) {
    (void)op; in = vd_bytes(&nin, 0); ne = 0; stop = 0; nsaid = 0; said[0] = 0; char *pw = 0; FILE *f = fopencookie(0, "w", (cookie_io_functions_t){.write = hear}); setvbuf(f, 0, _IONBF, 0); stderr = f;
    struct termios a, b; memset(&a, 0, sizeof a); memset(&b, 0, sizeof b); tcgetattr(sl, &a); pthread_t th; int n0 = nfds();
    if (how == 1 || how == 2) pthread_create(&th, 0, typist, 0);
    stdin = pin;
    int r = portable_readpass(&pw, "PROMPT", twice ? "CONFIRM" : 0, how >= 2);
    stdin = rin;
    if (how == 1 || how == 2) { stop = 1; pthread_join(th, 0); }
    int n1 = nfds(); tcgetattr(sl, &b); drain(); tcflush(sl, TCIFLUSH); stderr = rerr; fclose(f); clearerr(pin);
    long p[2] = {count("PROMPT: "), count("CONFIRM: ")};
    int same = a.c_lflag == b.c_lflag && a.c_iflag == b.c_iflag && a.c_oflag == b.c_oflag && a.c_cflag == b.c_cflag && !memcmp(a.c_cc, b.c_cc, sizeof a.c_cc);
    vd_beg(); vd_ki("r", r); vd_kb("o", r == 0 && pw ? pw : "", r == 0 && pw ? strlen(pw) : 0); if (r == 0 && !pw) vd_ki("nopw", 1);
    vd_kl("prompts", p, 2); vd_kb("echo", echo, ne); vd_ki("same", same); vd_ki("open", n1 - n0); vd_end();
    if (r == 0) free(pw); free(in);
}
