#include "vd.h"
#include <setjmp.h>
#include <stdarg.h>
#include "utils/configfile.h"
size_t __sanitizer_get_current_allocated_bytes(void);
static configfile cf; static int open_; static jmp_buf jb; static FILE *lastfp; static size_t base;
static node *N[4096]; static int nn;
void __wrap_error(int st, int en, const char *f, ...) { (void)en; (void)f; if (st) longjmp(jb, 1); }
FILE *__real_fopen(const char *, const char *); int __real_fclose(FILE *);
FILE *__wrap_fopen(const char *a, const char *b) { return lastfp = __real_fopen(a, b); }
int __wrap_fclose(FILE *f) { if (f == lastfp) lastfp = 0; return __real_fclose(f); }
static void shut(void) { if (open_) config_close(&cf); open_ = 0; nn = 0; }
static void vd_begin(void) { vd_tok(); shut(); if (vd_cap < 1 << 22) { char *p = malloc(1 << 22); strcpy(p, vd_line); vd_p = p + (vd_p - vd_line); free(vd_line); vd_line = p; vd_cap = 1 << 22; } }
static void vd_finish(void) { shut(); }
static void pb(const char *s) { putchar('['); for (int i = 0; s[i]; i++) printf(i ? ",%d" : "%d", (uint8_t)s[i]); putchar(']'); }
static void tree(node *n, int lv) {
    if (nn) putchar(','); N[nn++] = n;
    printf("{\"lv\":%d,\"name\":", lv); pb(gstr_str(&n->name)); printf(",\"kv\":[");
    keyval *kv; int f = 0;
    VECT_FOR_EACH(&n->values, kv) { printf(f++ ? ",[" : "["); pb(gstr_str(&kv->key)); putchar(','); pb(gstr_str(&kv->val)); putchar(']'); }
    printf("]}"); node *p; DL_FOREACH(&n->subtree, p, link) tree(p, lv + 1);
}
static long idx(node *n) { if (!n) return 0; for (int i = 0; i < nn; i++) if (N[i] == n) return i + 1; return -1; }
static void val(const char *v) { vd_beg(); vd_ki("r", v != 0); vd_ks("v", v ? v : ""); vd_end(); }
static void vd_op(const char *op) {
    size_t n;
    if (vd_is(op, "load")) {
        uint8_t *d = vd_bytes(&n, 0); shut(); FILE *f = __real_fopen("cf", "wb"); fwrite(d, 1, n, f); __real_fclose(f); free(d);
        base = __sanitizer_get_current_allocated_bytes();
        if (setjmp(jb)) { if (lastfp) __real_fclose(lastfp); lastfp = 0; vd_beg(); vd_ki("r", -1); vd_key("secs"); printf("[]"); vd_end(); return; }
        int r = config_open(&cf, "cf"); open_ = 1; nn = 0;
        vd_beg(); vd_ki("r", r); vd_key("secs"); putchar('['); tree(cf.root, 0); putchar(']'); vd_end();
    } else if (vd_is(op, "close")) {
        if (!open_) { vd_beg(); vd_ki("r", 0); vd_ki("leak", 0); vd_end(); return; }
        int r = config_close(&cf); open_ = nn = 0; long leak = (long)__sanitizer_get_current_allocated_bytes() - (long)base;
        vd_beg(); vd_ki("r", r); vd_ki("leak", leak); vd_end();
    } else if (vd_is(op, "sec")) { char *p = vd_str(); vd_r(open_ ? idx(config_get_section(&cf, p)) : 0); free(p); }
    else if (vd_is(op, "sub")) { long i = vd_int(); char *p = vd_str(); vd_r(i <= nn ? idx(config_get_subsection(N[i - 1], p)) : 0); free(p); }
    else if (vd_is(op, "get")) { char *p = vd_str(); val(open_ ? config_get_entry(&cf, p) : 0); free(p); }
    else if (vd_is(op, "sget")) { long i = vd_int(); char *p = vd_str(); val(i <= nn ? config_section_get_entry(N[i - 1], p) : 0); free(p); }
    else if (vd_is(op, "dump")) {
        char *t = 0; size_t tn = 0; FILE *o = stdout, *m = open_memstream(&t, &tn);
        if (open_) { stdout = m; config_dump(&cf); stdout = o; }
        fclose(m); vd_beg(); vd_kb("t", t, tn); vd_end(); free(t);
    } else if (vd_is(op, "int")) { char *s = vd_str(); long v = 0; int r = config_parse_int(s, &v); vd_beg(); vd_ki("r", r); vd_k64("v", v); vd_end(); free(s); }
    else if (vd_is(op, "uint")) { char *s = vd_str(); unsigned long v = 0; int r = config_parse_uint(s, &v); vd_beg(); vd_ki("r", r); vd_k64("v", v); vd_end(); free(s); }
    else if (vd_is(op, "bool")) { char *s = vd_str(); int v = 9; int r = config_parse_bool(s, &v); vd_beg(); vd_ki("r", r); vd_ki("v", v); vd_end(); free(s); }
}
