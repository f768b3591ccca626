#include "vd.h"
#include <sys/types.h>
#include "utils/strutils.h"
/* stream over given bytes; reads deliver `chunk' bytes at a time and may end in an error */
static uint8_t *data; static size_t len, pos; static int err, chunk;
static FILE *fp;
static ssize_t rd(void *c, char *b, size_t n) {
    if (pos == len) { if (err) { errno = EIO; return -1; } return 0; }
    if (n > len - pos) n = len - pos;
    if (n > chunk) n = chunk;
    memcpy(b, data + pos, n); pos += n; return n;
}
static void vd_begin(void) {
    data = vd_bytes(&len, 0); err = vd_int(); pos = 0; chunk = 1 + len % 5;
    cookie_io_functions_t f = { .read = rd };
    fp = fopencookie(0, "r", f);
    setvbuf(fp, 0, _IOFBF, 7);
}
static void vd_op(const char *op) {
    int n = vd_int();
    uint8_t *b = malloc(n + !n); memset(b, 0xee, n);
    errno = EIO;
    int r = freadline(fp, b, n);
    int in = r < n || n == 0;
    vd_beg(); vd_ki("r", r); vd_ki("in", in); vd_ki("z", r >= 0 && r < n && b[r] == 0); vd_kb("o", b, r > 0 && in ? r : 0); vd_end();
    free(b);
}
static void vd_finish(void) { fclose(fp); free(data); }
