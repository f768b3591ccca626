// object pools and the memory manager stacked on a pool
#include "vd.h"
#include <memory>
#include <new>
#include <vector>
#include <utility>
#include "utils/mempool.h"
using namespace putils;
static int born, died, alive;
struct Boom {};
template <int N> struct Obj {
    uint8_t b[N];
    Obj(int v, bool boom) { born++; memset(b, 0xee, N); if (boom) throw Boom(); for (int i = 0; i < N; i++) b[i] = (uint8_t)(v + i); alive++; }
    ~Obj() { died++; alive--; memset(b, 0xdd, N); }
    bool ok(int v) const { for (int i = 0; i < N; i++) if (b[i] != (uint8_t)(v + i)) return false; return true; }
};
struct Base {
    virtual ~Base() {}
    virtual int make(int v, bool boom) = 0; virtual void del(int i) = 0; virtual int bad() = 0; virtual unsigned bs() = 0; virtual unsigned tot() = 0; virtual mempool *raw() = 0; virtual int tiny() = 0;
};
struct Ent { void *p; int v; int n; };      // n > 0: raw memory of n bytes
static std::vector<Ent> E;
template <int N> struct Impl : Base {
    typedef Obj<N> O;
    struct Open : Mempool<O> { using Mempool<O>::Mempool; };
    std::vector<uint8_t> mem; std::unique_ptr<Open> p;
    Impl(int kind, int cap) {
        if (kind == 0) p.reset(new Open(cap)); else if (kind == 2) p.reset(new Open());
        else { mem.resize(4096 + 0); unsigned want = 64 + (unsigned)cap * ((N < 16 ? 16 : (N + 7) / 8 * 8)); mem.resize(want); mem.shrink_to_fit(); p.reset(new Open(mem.data(), want)); }
    }
    int make(int v, bool boom) override {
        try { O *o = p->Alloc(v, boom); E.push_back({o, v, 0}); return (int)E.size(); }
        catch (std::bad_alloc &) { return -1; } catch (Boom &) { return -2; }
    }
    void del(int i) override { p->Free((O *)E[i - 1].p); E[i - 1].p = 0; }
    int bad() override {
        int k = 0; for (auto &e : E) if (e.p) {
            if (!e.n) k += !((O *)e.p)->ok(e.v);
            else for (int j = 0; j < e.n; j++) if (((uint8_t *)e.p)[j] != (uint8_t)(e.v + j)) { k++; break; }
        }
        return k;
    }
    unsigned bs() override { return p->Blocksize(); }
    unsigned tot() override { return p->Totalblocks(); }
    // the class has nothing but its vtable pointer and the pool
    mempool *raw() override { return (mempool *)((char *)(Mempool<O> *)p.get() + sizeof(Mempool<O>) - sizeof(mempool)); }
    int tiny() override { static uint8_t t[8]; try { Mempool<O> q(t, 8); return 1; } catch (std::bad_alloc &) { return -1; } }
};
static Base *B;
static void vd_begin(void) {
    int kind = vd_int(), cap = vd_int(), z = vd_int(); born = died = alive = 0; E.clear();
    B = z == 1 ? (Base *)new Impl<1>(kind, cap) : z == 24 ? (Base *)new Impl<24>(kind, cap) : (Base *)new Impl<100>(kind, cap);
}
static void vd_finish(void) { delete B; B = 0; }
static void vd_op(const char *op) {
    int r = 0; born = died = 0; unsigned bs = 0, tot = 0;
    if (vd_is(op, "info")) { bs = B->bs(); tot = B->tot(); }
    else if (vd_is(op, "new")) { int v = vd_int(); r = B->make(v, vd_int() != 0); }
    else if (vd_is(op, "del")) B->del(vd_int());
    else if (vd_is(op, "take")) {
        int n = vd_int(); memmgr m; memset(&m, 0x5a, sizeof m); memmgr *q = mempool_make_memmgr(&m, B->raw()); void *p = memmgr_alloc(q, n);
        if (p) { E.push_back({p, (int)E.size() * 3, n ? n : 1}); for (int j = 0; j < E.back().n; j++) ((uint8_t *)p)[j] = (uint8_t)(E.back().v + j); r = (int)E.size(); }
    } else if (vd_is(op, "give")) { int i = vd_int(); memmgr m; memmgr_free(mempool_make_memmgr(&m, B->raw()), E[i - 1].p); E[i - 1].p = 0; }
    else if (vd_is(op, "tiny")) r = B->tiny();
    vd_beg(); vd_ki("r", r); vd_ki("born", born); vd_ki("died", died); vd_ki("alive", alive); vd_ki("bad", B->bad()); vd_ki("bs", bs); vd_ki("tot", tot); vd_end();
}
