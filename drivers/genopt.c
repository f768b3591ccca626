/* a parser generated by tools/mkgetopt.py (o.h, o.c) for the table in tab.h */
#include "vd.h"
#include <setjmp.h>
#include <math.h>
#include "getopt_long.h"
#include "o.h"
#include "tab.h"
#include "error.h"
static jmp_buf jb; static int inparse;
void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int c) { if (inparse) longjmp(jb, c + 1); __real_exit(c); }
const char *PFX(version)(void) { return "1.2-x"; }
static char cbl[1 << 16]; static size_t ncb;
static void note(int i, const char *a) { ncb += sprintf(cbl + ncb, "%s[%d,%d", ncb ? "," : "", i, a != 0); if (a) for (; *a; a++) ncb += sprintf(cbl + ncb, ",%d", (uint8_t)*a); ncb += sprintf(cbl + ncb, "]"); }
#define CB(i, v) static void cb_##v(OPT *o, char *a) { (void)o; note(i, a); }
#define X(k, i, v) k(i, v)
#define NOP(i, v)
#define INT NOP
#define UNS NOP
#define DBL NOP
#define STR NOP
#define BOO NOP
#define CBK CB
TABLE
#undef INT
#undef UNS
#undef DBL
#undef STR
#undef BOO
#undef CBK
static int sep;
static void limbs(uint64_t x) { printf("%s[%d,%d,%d,%d]", sep++ ? "," : "", (int)(x >> 48), (int)(x >> 32 & 65535), (int)(x >> 16 & 65535), (int)(x & 65535)); }
static void bytes(const char *s) { printf("%s[", sep++ ? "," : ""); for (int i = 0; s[i]; i++) printf(i ? ",%d" : "%d", (uint8_t)s[i]); putchar(']'); }
static void num(long v) { printf("%s[%ld]", sep++ ? "," : "", v); }
static void flag(long v) { printf("%s%ld", sep++ ? "," : "", v); }
static void vd_begin(void) { vd_int(); opterr = 1; }
static void vd_finish(void) {}
static void vd_op(const char *op) {
    size_t n; uint8_t *d = vd_bytes(&n, 0); char *av[256]; int ac = 0; (void)op;
    char *blk = calloc(1, n + 1); memcpy(blk, d, n); free(d); av[ac++] = strdup("prog");
    for (size_t i = 0; i < n;) { size_t k = strlen(blk + i); av[ac++] = strdup(blk + i); i += k + 1; }
    av[ac] = 0; char *own[256]; memcpy(own, av, sizeof av);
    OPT o; memset(&o, 0xcd, sizeof o);
#define INT(i, v)
#define UNS INT
#define DBL INT
#define STR INT
#define BOO INT
#define CBK(i, v) o.v = cb_##v;
    TABLE
#undef INT
#undef CBK
    ncb = 0; cbl[0] = 0; char *t = 0; size_t tn = 0; FILE *m = open_memstream(&t, &tn), *so = stdout, *se = stderr; static FILE *nul; if (!nul) nul = fopen("/dev/null", "w");
    program_name = "prog"; stdout = m; stderr = nul; int code, r = -1; inparse = 1;
    if (!(code = setjmp(jb))) r = PFX(parse)(&o, ac, av);
    inparse = 0; stdout = so; stderr = se; fclose(m);
    vd_beg(); vd_ki("r", r > 0); vd_ki("exit", code); vd_kb("t", t, tn); free(t);
    vd_key("f"); putchar('['); sep = 0; if (!code) {
#define INT(i, v) limbs((uint64_t)(int64_t)o.v);
#undef UNS
#define UNS(i, v) limbs((uint64_t)o.v);
#undef DBL
#define DBL(i, v) num(fabs(o.v) < 2e6 ? lround(o.v * 1000) : 0);
#undef STR
#define STR(i, v) bytes(o.v);
#undef BOO
#define BOO(i, v) num(o.v);
#define CBK(i, v) num(0);
    TABLE
#undef INT
#undef UNS
#undef DBL
#undef STR
#undef BOO
#undef CBK
    }
    putchar(']'); vd_key("p"); putchar('['); sep = 0;
    if (!code) { PRESENT }
    putchar(']'); vd_key("cb"); printf("[%s]", cbl);
    vd_key("rest"); putchar('['); int f = 0;
    if (!code) for (int i = 0; i < o.argv_count; i++) { for (char *p = o.argv_inputs[i]; *p; p++) printf(f++ ? ",%d" : "%d", (uint8_t)*p); printf(f++ ? ",0" : "0"); }
    putchar(']'); vd_end(); free(blk); for (int i = 0; i < ac; i++) free(own[i]);
}
