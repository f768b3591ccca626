/* option parsing: getopt and getopt_long of src/getopt_long.c */
#include "vd.h"
#include "getopt_long.h"
extern int optreset; int getopt(int, char *const *, const char *);
static int flag;
static const struct option L1[] = {{"foo", no_argument, 0, 'f'}, {"foobar", required_argument, 0, 300}, {"fob", optional_argument, 0, 301}, {"x", no_argument, &flag, 7}, {0, 0, 0, 0}};
static const struct option L2[] = {{"abc", required_argument, 0, 310}, {"abcd", no_argument, &flag, 9}, {"ab", no_argument, 0, 311}, {"b", required_argument, &flag, 5}, {0, 0, 0, 0}};
static const struct option *LL[] = {L1, L2};
static char *sopt; static int lset;
static void vd_begin(void) { lset = vd_int(); free(sopt); sopt = vd_str(); if (vd_int()) setenv("POSIXLY_CORRECT", "1", 1); else unsetenv("POSIXLY_CORRECT"); opterr = vd_int(); }
static void vd_finish(void) {}
static void vd_op(const char *op) {
    size_t n; uint8_t *d = vd_bytes(&n, 0); long max = vd_int(); int how = vd_int();
    char **av = malloc((n + 3) * sizeof *av); int ac = 0; char *blk = malloc(n + 1); memcpy(blk, d, n); av[ac++] = strdup("prog");
    for (size_t i = 0; i < n;) { size_t k = strnlen(blk + i, n - i); av[ac] = malloc(k + 1); memcpy(av[ac], blk + i, k); av[ac++][k] = 0; i += k + 1; }
    av[ac] = 0; free(blk); free(d); char **own = malloc((ac + 1) * sizeof *own); memcpy(own, av, (ac + 1) * sizeof *own);
    char **v = malloc((ac + 1) * sizeof *v); memcpy(v, av, (ac + 1) * sizeof *v);
    if (how) { optind = 1; optreset = 1; } else optind = 0;
    vd_beg(); vd_key("res"); putchar('['); long m = 0; int r = 0;
    static FILE *nul; if (!nul) nul = fopen("/dev/null", "w"); FILE *err = stderr; stderr = nul;
    while (m < max) {
        int idx = -1; flag = 0;
        r = vd_is(op, "long") ? getopt_long(ac, v, sopt, LL[lset - 1], &idx) : getopt(ac, v, sopt);
        if (r == -1) break;
        printf("%s[%d,%d,%d,%d", m++ ? "," : "", r, r == '?' || r == ':' ? optopt : r == 0 ? flag : 0, idx, optarg != 0 && r != '?' && r != ':');
        if (optarg && r != '?' && r != ':') for (char *p = optarg; *p; p++) printf(",%d", (uint8_t)*p);
        putchar(']');
    }
    stderr = err;
    putchar(']'); vd_ki("done", r == -1); vd_ki("ind", r == -1 ? optind : 0);
    vd_key("argv"); putchar('['); int f = 0;
    if (r == -1) for (int i = 1; i < ac; i++) { for (char *p = v[i]; *p; p++) printf(f++ ? ",%d" : "%d", (uint8_t)*p); printf(f++ ? ",0" : "0"); }
    putchar(']'); vd_end();
    for (int i = 0; i < ac; i++) free(own[i]); free(v); free(own); free(av);
}
