extern "C" {
#include "vd.h"
}
#include "utils/minheap.h"
struct El { int key; int id; char pad[9]; };
struct CI { static bool lt(int a, int b) { return a < b; } static bool gt(int a, int b) { return a > b; } };
struct CE { static bool lt(const El &a, const El &b) { return a.key < b.key; } static bool gt(const El &a, const El &b) { return a.key > b.key; } };
struct CR { static bool lt(int a, int b) { return a > b; } static bool gt(int a, int b) { return a < b; } };   // reversed: yields the largest
static int TY, mx; static int *A; static El *Q; static minheap<int, CI> *H; static minheap<El, CE> *G; static minheap<int, CR> *R;
static void vd_begin(void) {
    TY = vd_int(); mx = vd_int(); size_t n; long *l = vd_ints(&n);
    A = (int*)malloc(sizeof(int) * (mx ? mx : 1)); Q = (El*)malloc(sizeof(El) * (mx ? mx : 1));
    for (size_t i = 0; i < n; i++) { A[i] = l[i]; memset(&Q[i], 0, sizeof(El)); Q[i].key = l[i]; Q[i].id = ~l[i]; }
    free(l); H = 0; G = 0; R = 0;
    if (TY == 0) H = new minheap<int, CI>(A, n, mx); else if (TY == 1) G = new minheap<El, CE>(Q, n, mx); else R = new minheap<int, CR>(A, n, mx);
}
static int hs() { return TY == 0 ? H->heapsize() : TY == 1 ? G->heapsize() : R->heapsize(); }
static int at(int i) { if (TY != 1) return A[i]; if (Q[i].id != ~Q[i].key) return -77777; return Q[i].key; }
static long runs[64][2]; static int nr;
static void seen(long v) {
    if (nr && runs[nr - 1][0] + (TY == 2 ? -runs[nr - 1][1] : runs[nr - 1][1]) == v) runs[nr - 1][1]++;
    else if (nr < 64) { runs[nr][0] = v; runs[nr][1] = 1; nr++; }
}
static void bulk(long n, long a, long k) {
    int *b = (int *)malloc(sizeof(int) * n + 1), o; El *q = (El *)calloc(sizeof(El), n + 1), f; long i, r = 0; nr = 0;
    for (i = 0; i < k; i++) { b[i] = i * a % n; q[i].key = b[i]; q[i].id = ~b[i]; }
    {
        minheap<int, CI> h(b, TY == 0 ? k : 0, n); minheap<El, CE> g(q, TY == 1 ? k : 0, n);
        if (TY == 2) {
            for (i = 0; i < k; i++) b[i] = i * a % n;
            minheap<int, CR> x(b, k, n);
            for (i = k; i < n; i++) x.insert((int)(i * a % n));
            r = x.heapsize(); while (nr < 64 && x.removemin(o)) seen(o);
        } else if (TY == 0) {
            for (i = k; i < n; i++) h.insert((int)(i * a % n));
            r = h.heapsize(); while (nr < 64 && h.removemin(o)) seen(o);
        } else {
            for (i = k; i < n; i++) { El e; memset(&e, 0, sizeof e); e.key = i * a % n; e.id = ~e.key; g.insert(e); }
            r = g.heapsize(); while (nr < 64 && g.removemin(f)) seen(f.id == ~f.key ? f.key : -7);
        }
    }
    free(b); free(q);
    vd_beg(); vd_ki("r", r); vd_key("runs"); putchar('['); for (i = 0; i < nr; i++) printf("%s[%ld,%ld]", i ? "," : "", runs[i][0], runs[i][1]); putchar(']'); vd_end();
}
static void vd_op(const char *op) {
    if (vd_is(op, "bulk")) { long n = vd_int(), a = vd_int(), k = vd_int(); bulk(n, a, k); return; }
    long r = -9, v = -1; int x = vd_int(), o = -1; El e; memset(&e, 0, sizeof e); e.key = x; e.id = ~x; El f; f.key = -1; f.id = 0;
    if (vd_is(op, "ins")) r = TY == 0 ? H->insert(x) : TY == 1 ? G->insert(e) : R->insert(x);
    else if (vd_is(op, "min")) { r = TY == 0 ? H->removemin(o) : TY == 1 ? G->removemin(f) : R->removemin(o); }
    else if (vd_is(op, "rem")) { r = TY == 0 ? H->remove(x, o) : TY == 1 ? G->remove(x, f) : R->remove(x, o); }
    if (r > 0 && !vd_is(op, "ins")) v = TY == 1 ? f.key : o;
    if (r > 0 && TY == 1 && !vd_is(op, "ins") && f.id != ~f.key) v = -77777;
    long t[4096]; int n = hs(); for (int i = 0; i < n; i++) t[i] = at(i);
    vd_beg(); vd_ki("r", r); vd_ki("v", v); vd_kl("c", t, n); vd_end();
}
static void vd_finish(void) { delete H; delete G; delete R; free(A); free(Q); }
