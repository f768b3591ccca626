/* Client programs for concurrent queues.
 *   exe MODE BOUND MAXRUNS SECS MAXHIST SEED CAP KIND OFFSET PROGRAM
 * PROGRAM = "pre;thread|thread|...;post", operations separated by spaces, each a letter and
 * comma separated numbers.  OFFSET enqueue/dequeue pairs move the wrap-around point first. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include "vsched.h"
static int CAP, KIND, OFFSET;
static char PROG[2048];
static char *sec[3], *thr_[VS_MAXT]; static int nthr;
/* implemented by the harness: perform op, fill in result; returns r */
static void q_new(void); static void q_del(void);
static long q_op(char op, const long *a, int n, long *v, int *nv);
static const char *q_name(char op);
VS_NOTSAN static void list(char *b, const long *v, int n) {
    char *p = b; *p++ = '['; *p = 0;
    for (int i = 0; i < n; i++) p += sprintf(p, i ? ",%ld" : "%ld", v[i]);
    *p++ = ']'; *p = 0;
}
VS_NOTSAN static void one(const char *s, int quiet) {
    long a[16], v[16]; int n = 0, nv = 0; char op = *s++;
    while (*s >= '0' && *s <= '9') { a[n++] = strtol(s, (char**)&s, 10); if (*s == ',') s++; }
    char la[200], lv[200];
    list(la, a, n);
    if (!quiet) vs_inv("{\"k\":\"i\",\"t\":%d,\"op\":\"%s\",\"a\":%s}", vs_self(), op == 'k' ? "signal" : q_name(op), la);
    long r = 0;
    if (op == 'k') vs_signal((int)a[0]); else r = q_op(op, a, n, v, &nv);
    list(lv, v, nv);
    if (!quiet) vs_ret("{\"k\":\"r\",\"t\":%d,\"r\":%ld,\"v\":%s}", vs_self(), r, lv);
}
VS_NOTSAN static void run_ops(const char *s) {
    while (*s) {
        while (*s == ' ') s++;
        if (!*s) break;
        one(s, 0);
        while (*s && *s != ' ') s++;
    }
}
VS_NOTSAN static void tbody(void *p) { run_ops((char*)p); }
VS_NOTSAN static void body(void *x) {
    (void)x;
    q_new();
    for (int i = 0; i < OFFSET; i++) { one("e0", 1); one("d", 1); }
    run_ops(sec[0]);
    int id[VS_MAXT];
    for (int i = 0; i < nthr; i++) id[i] = vs_spawn(tbody, thr_[i]);
    for (int i = 0; i < nthr; i++) vs_join(id[i]);
    run_ops(sec[2]);
    q_del();
}
int main(int argc, char **argv) {
    if (argc < 11) return 9;
    vs_opts o; memset(&o, 0, sizeof o);
    o.mode = atoi(argv[1]); o.bound = atoi(argv[2]); o.max_runs = strtoull(argv[3], 0, 10);
    o.max_seconds = atof(argv[4]); o.max_hist = strtoull(argv[5], 0, 10); o.seed = strtoull(argv[6], 0, 10);
    CAP = atoi(argv[7]); KIND = atoi(argv[8]); OFFSET = atoi(argv[9]);
    snprintf(PROG, sizeof PROG, "%s", argv[10]);
    char *p = PROG;
    sec[0] = p; p = strchr(p, ';'); *p++ = 0;
    sec[1] = p; p = strchr(p, ';'); *p++ = 0;
    sec[2] = p;
    for (p = sec[1]; p && *p; ) { thr_[nthr++] = p; p = strchr(p, '|'); if (p) *p++ = 0; }
    vs_test t = { body, 0, "q" }; vs_stats st;
    vs_explore(&t, &o, &st);
    return 0;
}
