#include "vd.h"
#include "utils/strmatch.h"
struct any { virtual ~any() {} virtual void find(const uint8_t *t, size_t n) = 0; };
static void list(const char *k, const std::vector<int> &v) { vd_key(k); putchar('['); for (size_t i = 0; i < v.size(); i++) printf(i ? ",%d" : "%d", v[i]); putchar(']'); }
template <typename T> struct impl : any {
    std::vector<T> p; kmp_search<T> *k; boyer_moore_search<T> *b; rabin_karp_search<T> *r;
    impl(const uint8_t *q, size_t n) {
        T *c = (T *)malloc(n * sizeof(T));        /* exact size; released right away */
        for (size_t i = 0; i < n; i++) { c[i] = (T)(sizeof(T) == 1 ? q[i] : q[i] * 257); p.push_back(c[i]); }
        k = new kmp_search<T>(c, n); b = new boyer_moore_search<T>(c, n); r = new rabin_karp_search<T>(c, n);
        free(c);
    }
    ~impl() { delete k; delete b; delete r; }
    template <typename S> bool same(S *s) { return s->patlen() == (int)p.size() && std::equal(p.begin(), p.end(), s->pat()); }
    void find(const uint8_t *t, size_t n) override {
        T *c = (T *)malloc(n * sizeof(T) + (n == 0));
        for (size_t i = 0; i < n; i++) c[i] = (T)(sizeof(T) == 1 ? t[i] : t[i] * 257);
        vd_beg();
        list("kmp", k->matchall(c, n)); list("bm", b->matchall(c, n)); list("tbm", b->turbo_matchall(c, n)); list("rk", r->matchall(c, n));
        vd_ki("ok", same(k) && same(b) && same(r)); vd_end();
        free(c);
    }
};
static any *a;
static void vd_begin(void) { size_t n; uint8_t *p = vd_bytes(&n, 0); int w = vd_int(); a = w == 0 ? (any *)new impl<char>(p, n) : w == 1 ? (any *)new impl<unsigned char>(p, n) : (any *)new impl<char16_t>(p, n); free(p); }
static void vd_op(const char *op) { size_t n; uint8_t *t = vd_bytes(&n, 0); a->find(t, n); free(t); }
static void vd_finish(void) { delete a; }
