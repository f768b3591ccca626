#include "vd.h"
#include <unistd.h>
#include <fcntl.h>
#include <pty.h>
#include <termios.h>
#include <sys/ioctl.h>
#include "utils/utils.h"
#include "utils/strutils.h"
#include "utils/hexdump.h"
#include "utils/progbar.h"
static char k[16];
static uint64_t g64(void) { size_t n; long *p = vd_ints(&n); uint64_t x = 0; for (size_t i = 0; i < n; i++) x = x << 16 | (uint64_t)p[i]; free(p); return x; }
static hex_dumper hd; static long failat, errno_, ncall; static char **calls; static size_t *clen;
static progress *pb; static int pm = -1, pfd = -1;
static void shut(void) { if (pm >= 0) close(pm); if (pfd >= 0) close(pfd); pm = pfd = -1; free(pb); pb = 0; }
static void drop(void) { for (long i = 0; i < ncall; i++) free(calls[i]); free(calls); free(clen); calls = 0; clen = 0; ncall = 0; }
static void vd_begin(void) { drop(); shut(); strncpy(k, vd_tok(), 15); pb = malloc(sizeof *pb); memset(pb, 0, sizeof *pb); pb->fd = -1; }
static void vd_finish(void) { drop(); shut(); }
static int wr(void *ctx, const char *b, size_t n) {
    if (ctx != &failat) abort();
    calls = realloc(calls, (ncall + 1) * sizeof *calls); clen = realloc(clen, (ncall + 1) * sizeof *clen);
    calls[ncall] = malloc(n ? n : 1); memcpy(calls[ncall], b, n); clen[ncall++] = n;
    return failat && ncall == failat ? -(int)errno_ : 0;
}
static void out(void) {          /* everything the terminal received */
    char b[4096]; size_t n = 0; ssize_t r;
    if (pm >= 0) while (n < sizeof b && (r = read(pm, b + n, sizeof b - n)) > 0) n += r;
    vd_kb("out", b, n);
}
static void vd_op(const char *op) {
    size_t n;
    if (vd_is(op, "size")) {
        uint64_t x = g64(); long m = vd_int(); char *b = malloc(m + 8); memset(b, 0x7e, m + 8);
        char *r = humanize_size(b, m, x); int over = 0;
        for (int i = 0; i < 8; i++) if (b[m + i] != 0x7e) over = 1;
        if (m > 0 && !memchr(b, 0, m)) over = 1, b[m] = 0;
        vd_beg(); vd_ki("same", r == b); vd_ki("over", over); vd_ks("t", m > 0 ? b : ""); vd_end(); free(b);
    } else if (vd_is(op, "hinit")) { memset(&hd, 0xa5, sizeof hd); hex_dump_init(&hd, wr, &failat, vd_int() & 1 ? HEX_DUMP_PTR : HEX_DUMP_OFFSET); vd_r(0); }
    else if (vd_is(op, "hclose")) vd_r(hex_dump_close(&hd));
    else if (vd_is(op, "hwrite")) {
        uint8_t *d = vd_bytes(&n, 0); failat = vd_int(); errno_ = vd_int(); drop();
        int r = hex_dump_write(&hd, d, n);
        vd_beg(); vd_ki("r", r); vd_k64("base", (uint64_t)(uintptr_t)d); vd_key("o"); putchar('[');
        for (long i = 0; i < ncall; i++) { if (i) putchar(','); putchar('['); for (size_t j = 0; j < clen[i]; j++) printf(j ? ",%d" : "%d", (uint8_t)calls[i][j]); putchar(']'); }
        putchar(']'); vd_end(); free(d);
    } else if (vd_is(op, "file")) {
        uint8_t *d = vd_bytes(&n, 0); char *t = 0; size_t tn = 0; FILE *f = open_memstream(&t, &tn);
        int r = fhexdump(f, d, n); fclose(f); vd_beg(); vd_ki("r", r); vd_kb("t", t, tn); vd_end(); free(t); free(d);
    } else if (vd_is(op, "full")) {
        uint8_t *d = vd_bytes(&n, 0); FILE *f = fopen("/dev/full", "w"); setvbuf(f, 0, _IONBF, 0);
        int r = fhexdump(f, d, n); fclose(f); vd_r(r); free(d);
    } else if (vd_is(op, "open")) {
        int tty = vd_int(), cols = vd_int(); uint64_t total = g64(); int human = vd_int();
        if (pm >= 0) close(pm); if (pfd >= 0) close(pfd); pm = pfd = -1;
        if (tty) {
            struct winsize w = { 24, (unsigned short)cols, 0, 0 }; struct termios t;
            if (openpty(&pm, &pfd, 0, 0, 0) < 0) { perror("openpty"); exit(3); }
            tcgetattr(pfd, &t); cfmakeraw(&t); tcsetattr(pfd, TCSANOW, &t); ioctl(pfd, TIOCSWINSZ, &w);
            fcntl(pm, F_SETFL, O_NONBLOCK);
        } else { int p[2]; if (pipe(p)) exit(3); pm = p[0]; pfd = p[1]; fcntl(pm, F_SETFL, O_NONBLOCK); }
        memset(pb, 0x5a, sizeof *pb);
        int r = progressbar_init(pb, pfd, total, human ? P_HUMAN : 0);
        vd_beg(); vd_ki("r", r); out(); vd_end();
    } else if (vd_is(op, "upd")) { progressbar_update(pb, g64()); vd_beg(); out(); vd_end(); }
    else { int a = vd_int(), b = vd_int(); progressbar_finish(pb, a, b); vd_beg(); out(); vd_end(); }
}
