#include "vd.h"
#include "utils/utils.h"
#include "fast/list.h"
#include "fast/llist.h"
#define N 16
typedef struct E E;
struct E { long tag; char pad[300]; SL_LINK(E) sl; DL_LINK(E) dl; list_head ll; struct hlist_node hl; long tag2; };
SL_HEAD_TYPEDEF(slh, E); DL_HEAD_TYPEDEF(dlh, E);
static E *el[N]; static slh sh[2]; static dlh dh[2]; static list_head lh[2]; static struct hlist_head hh[2]; static int K;
static long idx(E *e) { return e ? e->tag : -1; }
static void vd_begin(void) {
    K = vd_int();
    for (int i = 0; i < N; i++) { el[i] = malloc(sizeof(E)); memset(el[i], 0xa5, sizeof(E)); el[i]->tag = i; el[i]->tag2 = ~i; }
    for (int i = 0; i < 2; i++) { memset(&sh[i], 1, sizeof sh[i]); memset(&dh[i], 1, sizeof dh[i]); SL_INIT(&sh[i]); DL_INIT(&dh[i]); list_init(&lh[i]); INIT_HLIST_HEAD(&hh[i]); }
}
static void report(long r) {
    vd_beg(); vd_ki("r", r);
    for (int j = 0; j < 2; j++) {
        long f[64], b[64]; size_t nf = 0, nb = 0; int ok = 1; E *e, *t;
        if (K == 0) { SL_FOREACH(e, &sh[j], sl) if (nf < 60) f[nf++] = idx(e); else break;
            size_t m = 0; SL_FOREACH_SAFE(e, &sh[j], sl, t) { if (m >= 60) break; ok &= idx(e) == f[m++]; } ok &= m == nf;
            ok &= (SL_EMPTY(&sh[j]) != 0) == (nf == 0) && idx(SL_FIRST(&sh[j])) == (nf ? f[0] : -1); for (size_t i = 0; i < nf; i++) b[nf-1-i] = f[i]; nb = nf; }
        else if (K == 1) { DL_FOREACH(&dh[j], e, dl) if (nf < 60) f[nf++] = idx(e); else break;
            DL_FOREACH_REVERSE(&dh[j], e, dl) if (nb < 60) b[nb++] = idx(e); else break;
            ok &= (DL_EMPTY(&dh[j]) != 0) == (nf == 0) && (DL_empty_p(&dh[j]) != 0) == (nf == 0) && idx(DL_FIRST(&dh[j])) == (nf ? f[0] : -1) && idx(DL_LAST(&dh[j])) == (nf ? f[nf-1] : -1); }
        else if (K == 2) { list_head *p, *q; E *n;
            __list_for_each(p, &lh[j]) if (nf < 60) f[nf++] = list_entry(p, E, ll)->tag; else break;
            list_for_each_prev(p, &lh[j]) if (nb < 60) b[nb++] = list_entry(p, E, ll)->tag; else break;
            size_t m = 0; list_for_each_entry(e, &lh[j], ll) { if (m >= 60) break; ok &= idx(e) == f[m++]; } ok &= m == nf;
            m = 0; list_for_each_entry_safe(e, n, &lh[j], ll) { if (m >= 60) break; ok &= idx(e) == f[m++]; } ok &= m == nf;
            m = 0; list_for_each_safe(p, q, &lh[j]) { if (m >= 60) break; ok &= list_entry(p, E, ll)->tag == f[m++]; } ok &= m == nf;
            m = nf; list_for_each_entry_reverse(e, &lh[j], ll) { if (!m) break; ok &= idx(e) == f[--m]; } ok &= m == 0;
            ok &= !!list_empty(&lh[j]) == (nf == 0) && !!list_empty_careful(&lh[j]) == (nf == 0) && !!list_is_singular(&lh[j]) == (nf == 1);
            if (nf) ok &= list_first_entry(&lh[j], E, ll)->tag == f[0] && list_is_last(&el[f[nf-1]]->ll, &lh[j]) && (nf < 2 || !list_is_last(&el[f[0]]->ll, &lh[j])); }
        else { struct hlist_node *p, *q; E *n;
            hlist_for_each(p, &hh[j]) if (nf < 60) f[nf++] = hlist_entry(p, E, hl)->tag; else break;
            size_t m = 0; hlist_for_each_entry(e, p, &hh[j], hl) { if (m >= 60) break; ok &= idx(e) == f[m++]; } ok &= m == nf;
            m = 0; hlist_for_each_entry_safe(e, p, q, &hh[j], hl) { if (m >= 60) break; ok &= idx(e) == f[m++]; } ok &= m == nf;
            ok &= !!hlist_empty(&hh[j]) == (nf == 0); struct hlist_node **pp = &hh[j].first;   /* back links, last to first */
            for (size_t i = 0; i < nf; i++) { b[nf-1-i] = f[i]; ok &= el[f[i]]->hl.pprev == pp && !hlist_unhashed(&el[f[i]]->hl); pp = &el[f[i]]->hl.next; } nb = nf; }
        vd_kl(j ? "g" : "f", f, nf); vd_kl(j ? "gb" : "fb", b, nb); vd_ki(j ? "okg" : "okf", ok);
    }
    for (int i = 0; i < N; i++) if (el[i]->tag != i || el[i]->tag2 != ~(long)i) { fprintf(stderr, "element fields damaged\n"); exit(3); }
    vd_end();
}
static void vd_op(const char *op) {
    long r = -1; int l = vd_int(), x = vd_int(), y = vd_int(); E *e = x >= 0 ? el[x] : 0, *w = y >= 0 ? el[y] : 0;
    if (K == 0) {
        if (vd_is(op, "head")) SL_INSERT_HEAD(&sh[l], e, sl); else if (vd_is(op, "after")) SL_INSERT_AFTER(&sh[l], w, e, sl);
        else if (vd_is(op, "rmhead")) SL_REMOVE_HEAD(&sh[l], sl); else r = -99;
    } else if (K == 1) {
        if (vd_is(op, "head")) DL_INSERT_HEAD(&dh[l], e, dl); else if (vd_is(op, "tail")) DL_INSERT_TAIL(&dh[l], e, dl); else if (vd_is(op, "app")) DL_APPEND(&dh[l], e, dl);
        else if (vd_is(op, "after")) DL_INSERT_AFTER(&dh[l], w, e, dl); else if (vd_is(op, "before")) DL_INSERT_BEFORE(&dh[l], w, e, dl);
        else if (vd_is(op, "rm")) DL_REMOVE(&dh[l], e, dl); else if (vd_is(op, "rmhead")) r = idx(DL_REMOVE_HEAD(&dh[l], dl)); else if (vd_is(op, "rmtail")) r = idx(DL_REMOVE_TAIL(&dh[l], dl));
        else if (vd_is(op, "cat")) { DL_APPEND_LIST(&dh[l], &dh[1-l], dl); } else if (vd_is(op, "precat")) { DL_PREPEND_LIST(&dh[l], &dh[1-l], dl); } else r = -99;
    } else if (K == 2) {
        list_head *h = &lh[l], *o = &lh[1-l];
        if (vd_is(op, "head")) list_add(&e->ll, h); else if (vd_is(op, "tail")) list_add_tail(&e->ll, h);
        else if (vd_is(op, "after")) list_add(&e->ll, &w->ll); else if (vd_is(op, "before")) list_add_tail(&e->ll, &w->ll);
        else if (vd_is(op, "rm")) list_del(&e->ll); else if (vd_is(op, "rminit")) { list_del_init(&e->ll); if (!list_empty(&e->ll)) r = -5; }
        else if (vd_is(op, "repl")) list_replace(&w->ll, &e->ll); else if (vd_is(op, "replinit")) { list_replace_init(&w->ll, &e->ll); if (!list_empty(&w->ll)) r = -5; }
        else if (vd_is(op, "mvhead")) list_move(&e->ll, h); else if (vd_is(op, "mvtail")) list_move_tail(&e->ll, h);
        else if (vd_is(op, "rot")) list_rotate_left(h);
        else if (vd_is(op, "cut")) { list_cut_position(o, h, &e->ll); }        /* o must be empty */
        else if (vd_is(op, "precat")) list_splice_init(o, h); else if (vd_is(op, "cat")) list_splice_tail_init(o, h);
        else if (vd_is(op, "precat2")) { list_splice(o, h); list_init(o); } else if (vd_is(op, "cat2")) { list_splice_tail(o, h); list_init(o); } else r = -99;
    } else {
        if (vd_is(op, "head")) hlist_add_head(&e->hl, &hh[l]); else if (vd_is(op, "after")) hlist_add_after(&w->hl, &e->hl); else if (vd_is(op, "before")) hlist_add_before(&e->hl, &w->hl);
        else if (vd_is(op, "rm")) hlist_del(&e->hl); else if (vd_is(op, "rminit")) { hlist_del_init(&e->hl); hlist_del_init(&e->hl); if (!hlist_unhashed(&e->hl)) r = -5; }
        else if (vd_is(op, "moveall")) { if (hlist_empty(&hh[l])) hlist_move_list(&hh[1-l], &hh[l]); } else r = -99;
    }
    report(r);
}
static void vd_finish(void) { for (int i = 0; i < N; i++) free(el[i]); }
