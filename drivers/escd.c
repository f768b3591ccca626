#include "vd.h"
#include "utils/gstring.h"
static void vd_begin(void) { vd_int(); }
static int term(gstr *g) { return g->len < g->cap && g->str[g->len] == 0; }
static void vd_op(const char *op) {
    char *s = vd_str(); gstr g; gstr_init_from(&g, s);
    /* storage of exactly the size the string claims to have */
    if (vd_is(op, "unesc")) {
        int x = vd_int();
        char *t = malloc(g.len + 1); memcpy(t, g.str, g.len + 1); free(g.str); g.str = t; g.cap = g.len + 1;
        gstr *r = gstr_unescape(&g, x);
        vd_beg(); vd_kb("o", g.str, g.len); vd_ki("term", r == &g && term(&g)); vd_end();
    } else {
        char *z = vd_str(); int x = vd_int();
        gstr *r = gstr_escape(&g, z, x);
        vd_beg(); vd_kb("o", g.str, g.len); vd_ki("term", r == &g && term(&g));
        gstr_unescape(&g, x);
        vd_kb("back", g.str, g.len); vd_end();
        free(z);
    }
    gstr_fini(&g); free(s);
}
static void vd_finish(void) { }
