#include "vd.h"
#include "utils/gstring.h"
static gstr g[8]; static int n; static char *fbuf; static FILE *fp;
static void mkfile(uint8_t *b, size_t k) { if (fp) fclose(fp); free(fbuf); fp = 0; fbuf = malloc(k + 1); memcpy(fbuf, b, k); fp = tmpfile(); fwrite(fbuf, 1, k, fp); rewind(fp); }
static void vd_begin(void) { n = vd_int(); for (int i = 0; i < n; i++) gstr_init(&g[i], 0); mkfile((uint8_t *)"", 0); }
static void report(long r) {
    int term = 1;
    vd_beg(); vd_ki("r", r); vd_key("c"); putchar('[');
    for (int i = 0; i < n; i++) {
        char *s = gstr_str(&g[i]); size_t l = gstr_len(&g[i]);
        if (l >= gstr_cap(&g[i]) || s[l] != 0 || (gstr_str)(&g[i]) != s || (gstr_len)(&g[i]) != l) term = 0;
        if (i) putchar(',');
        putchar('[');
        for (size_t j = 0; j < l; j++) printf(j ? ",%d" : "%d", 0xff & s[j]);
        putchar(']');
        volatile char *p = &s[gstr_cap(&g[i]) - 1]; char o = *p; *p = o;   /* claimed capacity is real */
        for (int k = 0; k < i; k++) if (gstr_str(&g[k]) == s) term = 0;
    }
    putchar(']'); vd_ki("term", term); vd_end();
}
static void vd_op(const char *op) {
    long r = 0;
    if (vd_is(op, "file")) { size_t k; uint8_t *b = vd_bytes(&k, 0); mkfile(b, k); free(b); report(0); return; }
    int i = vd_int() - 1;
    if (vd_is(op, "appstr")) { char *b = vd_str(); r = gstr_append_str(&g[i], b); free(b); }
    else if (vd_is(op, "app")) { int j = vd_int() - 1; r = gstr_append(&g[i], &g[j]); }
    else if (vd_is(op, "apptail")) { int k = vd_int(); r = gstr_append_str(&g[i], gstr_str(&g[i]) + k); }
    else if (vd_is(op, "appch")) r = gstr_append_ch(&g[i], vd_int());
    else if (vd_is(op, "copy")) { int j = vd_int() - 1; r = gstr_copy(&g[i], &g[j]) == &g[i]; }
    else if (vd_is(op, "dup")) { int j = vd_int() - 1; gstr_fini(&g[i]); r = gstr_dup(&g[i], &g[j]) == &g[i]; }
    else if (vd_is(op, "from")) { char *b = vd_str(); gstr_fini(&g[i]); gstr_init_from(&g[i], b); free(b); }
    else if (vd_is(op, "init")) { gstr_fini(&g[i]); gstr_init(&g[i], vd_int()); }
    else if (vd_is(op, "trunc")) r = gstr_truncate(&g[i], vd_int());
    else if (vd_is(op, "reset")) gstr_reset(&g[i]);
    else if (vd_is(op, "trim")) gstr_trim(&g[i]);
    else if (vd_is(op, "chop")) r = gstr_chop(&g[i]);
    else if (vd_is(op, "chopif")) { char *b = vd_str(); r = 0xff & gstr_chop_if(&g[i], b); free(b); }
    else if (vd_is(op, "unq")) r = gstr_unquote(&g[i]);
    else if (vd_is(op, "eq")) r = gstr_eq(&g[i], &g[vd_int() - 1]);
    else if (vd_is(op, "eqs")) { char *b = vd_str(); r = gstr_eq_str(&g[i], b); free(b); }
    else if (vd_is(op, "ends")) r = (0xff & gstr_lastch(&g[i])) * 256 + (0xff & gstr_firstch(&g[i]));
    else if (vd_is(op, "line")) { char *b = vd_str(); r = gstr_readline(&g[i], fp, b); free(b); }
    report(r);
}
static void vd_finish(void) { for (int i = 0; i < n; i++) gstr_fini(&g[i]); fclose(fp); fp = 0; }
