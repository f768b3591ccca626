#include "vd.h"
#include "utils/gstring.h"
static struct { char *k, *v; } kv[256]; static int nkv;
static char *asked[4096]; static int nasked;
static void vd_begin(void) { vd_int(); nkv = 0; }
static const char *find(void *c, const char *key) {
    if (c != (void *)kv) abort();
    if (nasked < 4096) asked[nasked++] = strdup(key);
    for (int i = nkv - 1; i >= 0; i--) if (!strcmp(kv[i].k, key)) return kv[i].v;
    return 0;
}
static void vd_op(const char *op) {
    if (vd_is(op, "set")) { kv[nkv].k = vd_str(); kv[nkv].v = vd_str(); nkv++; vd_r(0); return; }
    char *t = vd_str(); gstr g; gstr_init_from(&g, t); free(t);
    nasked = 0;
    int r = gstr_varexp(&g, find, kv);
    int term = g.len < g.cap && g.str[g.len] == 0 && strlen(g.str) == g.len;
    for (int i = 0; i < nkv; i++) if (g.str == kv[i].v) term = 0;
    vd_beg(); vd_ki("r", r); vd_ki("term", term); vd_kb("o", g.str, g.len); vd_key("asked"); putchar('[');
    for (int i = 0; i < nasked; i++) {
        if (i) putchar(',');
        putchar('[');
        for (int j = 0; asked[i][j]; j++) printf(j ? ",%d" : "%d", 0xff & asked[i][j]);
        putchar(']'); free(asked[i]);
    }
    putchar(']'); vd_end();
    gstr_fini(&g);
}
static void vd_finish(void) { for (int i = 0; i < nkv; i++) { free(kv[i].k); free(kv[i].v); } }
