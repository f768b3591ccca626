#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <errno.h>
#include <time.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <unistd.h>
#include "vsched.h"

/* ------------------------------------------------------------------ contexts */
typedef struct { void *sp; } ctx_t;
void vs_switch(ctx_t *from, ctx_t *to);
__asm__(
".text\n.globl vs_switch\n.type vs_switch,@function\nvs_switch:\n"
"  pushq %rbp\n  pushq %rbx\n  pushq %r12\n  pushq %r13\n  pushq %r14\n  pushq %r15\n"
"  movq %rsp,(%rdi)\n  movq (%rsi),%rsp\n"
"  popq %r15\n  popq %r14\n  popq %r13\n  popq %r12\n  popq %rbx\n  popq %rbp\n  ret\n");

#define STKSZ (256*1024)
typedef uint32_t vc_t[VS_MAXT];
enum { K_LOAD, K_STORE, K_RMW, K_OBJ_R, K_OBJ_W, K_LOCK, K_SEMW, K_INV, K_RET, K_NOTE, K_JOIN, K_JOINALL, K_START, K_COND, K_YIELD, K_RDLOCK, K_SPINWAIT };
typedef struct { int kind; uintptr_t addr; size_t size; } op_t;

typedef struct thr {
    ctx_t c;
    char *stk;
    int st;                 /* 0 unused 1 runnable 2 done */
    void (*fn)(void *); void *(*pfn)(void *); void *arg; void *ret;
    op_t pend;
    vc_t vc, relf, acqp;    /* clock, release-fence clock, pending-acquire clock */
    int has_relf;
    /* spin detection */
    uintptr_t sp_addr; uint64_t sp_val; int sp_cnt; int sp_wait; int sp_any, nrd;
    int detached, cancel_name, intr;
    uint64_t seq;
} thr;
static thr T[VS_MAXT];
static int NT, cur = -1;
static ctx_t mainctx;
static int run_abort;       /* this run must stop */
static uint64_t run_id, nsteps, nplain;

/* ------------------------------------------------------------------ arena */
static char *arena; static size_t arena_off, ARENA = 24u << 20, arena_hw;
typedef struct { uintptr_t a; size_t n; int freed; } blk;
static blk *blks; static size_t nblk, capblk;
static int in_run(void) { return cur >= 0; }
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
void __real_free(void *); int __real_posix_memalign(void **, size_t, size_t);
static void ev_raw(const char *s);
static void *a_alloc(size_t n, size_t al) {
    if (al < 16) al = 16;
    arena_off = (arena_off + al - 1) & ~(al - 1);
    size_t need = n ? n : 1;
    if (arena_off + need + 32 > ARENA) { fprintf(stderr, "vsched: arena exhausted\n"); exit(3); }
    void *p = arena + arena_off; arena_off += need + 32;
    if (arena_off > arena_hw) arena_hw = arena_off;
    memset(p, 0xA5, need);
    if (nblk == capblk) { capblk = capblk ? capblk * 2 : 256; blks = __real_realloc(blks, capblk * sizeof *blks); }
    blks[nblk].a = (uintptr_t)p; blks[nblk].n = need; blks[nblk].freed = 0; nblk++;
    return p;
}
static blk *a_find(uintptr_t a) {
    size_t lo = 0, hi = nblk;
    while (lo < hi) { size_t m = (lo + hi) / 2; if (blks[m].a <= a) lo = m + 1; else hi = m; }
    return lo ? &blks[lo-1] : 0;
}
static int in_arena(const void *p) { return (char*)p >= arena && (char*)p < arena + ARENA; }
void *__wrap_malloc(size_t n) { return in_run() ? a_alloc(n, 16) : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { if (!in_run()) return __real_calloc(a, b); void *p = a_alloc(a*b, 16); memset(p, 0, a*b); return p; }
void *__wrap_realloc(void *q, size_t n) {
    if (!in_run()) return __real_realloc(q, n);
    void *p = a_alloc(n, 16);
    if (q) { blk *b = a_find((uintptr_t)q); size_t m = b ? b->n : 0; memcpy(p, q, m < n ? m : n); if (b) b->freed = 1; }
    return p;
}
int __wrap_posix_memalign(void **pp, size_t al, size_t n) { if (!in_run()) return __real_posix_memalign(pp, al, n); *pp = a_alloc(n, al); return 0; }
void *__real_aligned_alloc(size_t, size_t);
void *__wrap_aligned_alloc(size_t al, size_t n) { if (!in_run()) return __real_aligned_alloc(al, n); return a_alloc(n, al); }
void __wrap_free(void *p) {
    if (!p) return;
    if (!in_arena(p)) { if (!in_run()) __real_free(p); return; }
    blk *b = a_find((uintptr_t)p);
    if (!b || b->a != (uintptr_t)p) { ev_raw("{\"k\":\"b\",\"op\":\"badfree\"}"); return; }
    if (b->freed) { ev_raw("{\"k\":\"b\",\"op\":\"doublefree\"}"); return; }
    b->freed = 1;
}

/* ------------------------------------------------------------------ history */
static char *hbuf; static size_t hlen, hcap;
typedef struct { uint8_t kind; uint8_t t; uint32_t off; } hev;
static hev hev_[4096]; static int nhev;
static void h_put(int kind, const char *s) {
    size_t n = strlen(s) + 1;
    if (hlen + n > hcap) { hcap = (hlen + n) * 2 + 4096; hbuf = __real_realloc(hbuf, hcap); }
    memcpy(hbuf + hlen, s, n);
    if (nhev < 4096) { hev_[nhev].kind = kind; hev_[nhev].t = cur < 0 ? 0 : cur; hev_[nhev].off = hlen; nhev++; }
    hlen += n;
}
static int cnt_race, cnt_stuck;
static void ev_raw(const char *s) { h_put(2, s); }

/* distinct histories */
static uint64_t *hset; static size_t hset_cap, hset_n;
static uint64_t fnv(const char *s, uint64_t h) { for (; *s; s++) { h ^= (uint8_t)*s; h *= 1099511628211ull; } return h; }
static int hset_add(uint64_t h) {
    if (!h) h = 1;
    if (hset_n * 2 >= hset_cap) {
        size_t oc = hset_cap; uint64_t *o = hset;
        hset_cap = oc ? oc * 2 : 1 << 12; hset = __real_calloc(hset_cap, 8); hset_n = 0;
        for (size_t i = 0; i < oc; i++) if (o[i]) hset_add(o[i]);
        __real_free(o);
    }
    size_t i = h & (hset_cap - 1);
    while (hset[i]) { if (hset[i] == h) return 0; i = (i + 1) & (hset_cap - 1); }
    hset[i] = h; hset_n++;
    return 1;
}

/* ------------------------------------------------------------------ scheduling */
static int choices_dump;
static void tr_main(void);
static void to_sched(void) { int me = cur; vs_switch(&T[me].c, &mainctx); (void)me; }
static void visible(int kind, uintptr_t a, size_t n) {
    if (cur < 0) return;
    T[cur].pend.kind = kind; T[cur].pend.addr = a; T[cur].pend.size = n;
    to_sched();
}
static int mk_thread(void (*fn)(void *), void *(*pfn)(void *), void *arg) {
    if (NT == VS_MAXT) { fprintf(stderr, "vsched: too many threads\n"); exit(3); }
    thr *t = &T[NT];
    char *stk = t->stk;
    if (!stk) stk = mmap(0, STKSZ, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
    memset(t, 0, sizeof *t);
    t->stk = stk; t->fn = fn; t->pfn = pfn; t->arg = arg; t->st = 1;
    uintptr_t *sp = (uintptr_t *)(stk + STKSZ - 64);
    *--sp = 0;                       /* alignment: rsp%16==8 at entry of tr_main */
    *--sp = (uintptr_t)tr_main;
    for (int i = 0; i < 6; i++) *--sp = 0;
    t->c.sp = sp;
    t->pend.kind = K_START; t->pend.addr = 0;
    if (cur >= 0) { memcpy(t->vc, T[cur].vc, sizeof(vc_t)); T[cur].vc[cur]++; }
    t->vc[NT] = 1;
    return NT++;
}
static void tr_main(void) {
    thr *t = &T[cur];
    if (t->fn) t->fn(t->arg); else t->ret = t->pfn(t->arg);
    t = &T[cur];
    t->st = 2;
    vs_switch(&t->c, &mainctx);
    abort();
}

typedef struct vmutex { int owner; int cnt; vc_t vc; } vmutex;
/* pthread objects are represented by side tables keyed by address */
typedef struct obj { uintptr_t a; uint64_t run; int type; int owner; int count; int readers; int waiting; unsigned wmask, sigmask; vc_t vc; } obj;
#define NOBJ 4096
static obj objs[NOBJ];
static obj *ob(const void *p) {
    uintptr_t a = (uintptr_t)p; size_t i = (a >> 3) * 0x9E3779B97F4A7C15ull >> 52;
    for (;; i = (i + 1) & (NOBJ-1)) {
        obj *o = &objs[i];
        if (o->run == run_id && o->a == a) return o;
        if (o->run != run_id) { memset(o, 0, sizeof *o); o->run = run_id; o->a = a; o->owner = -1; return o; }
    }
}
static int enabled(int i) {
    thr *t = &T[i];
    if (t->st != 1) return 0;
    switch (t->pend.kind) {
    case K_LOCK: { obj *o = ob((void*)t->pend.addr); return o->owner < 0 && o->readers == 0; }
    case K_RDLOCK: { obj *o = ob((void*)t->pend.addr); return o->owner < 0; }
    case K_SEMW: return t->intr || ob((void*)t->pend.addr)->count > 0;
    case K_COND: return (ob((void*)t->pend.addr)->sigmask >> i) & 1;
    case K_JOIN: return T[t->pend.addr].st == 2;
    case K_JOINALL: for (int k = 0; k < NT; k++) if (k != i && T[k].st == 1 && !T[k].detached) return 0; return 1;
    case K_SPINWAIT: return !t->sp_wait;
    }
    return 1;
}
int vs_strict_order;
static int isread(int k) { return k == K_LOAD || k == K_OBJ_R || k == K_SPINWAIT; }
static int dependent(op_t *a, op_t *b) {
    if (a->kind == K_INV || a->kind == K_RET || b->kind == K_INV || b->kind == K_RET) {
        if ((a->kind == K_INV && b->kind == K_RET) || (a->kind == K_RET && b->kind == K_INV)) return 1;
        if (a->kind == K_NOTE || b->kind == K_NOTE) return 1;
        return vs_strict_order && a->kind == K_RET && b->kind == K_RET;
    }
    if (a->kind == K_NOTE || b->kind == K_NOTE) return a->kind == b->kind;
    if (a->kind == K_START || b->kind == K_START) return 0;
    if (a->kind == K_YIELD || b->kind == K_YIELD) return 0;
    if (a->kind == K_JOIN || b->kind == K_JOIN || a->kind == K_JOINALL || b->kind == K_JOINALL) return 1;
    if (a->addr + a->size <= b->addr || b->addr + b->size <= a->addr) return 0;
    return !(isread(a->kind) && isread(b->kind));
}
static void read_budget(void);
static void nospin(void);
void vs_yield(void) { if (cur >= 0) { read_budget(); visible(K_YIELD, 0, 0); } }
void vs_point(const void *o, int w) { visible(w ? K_OBJ_W : K_OBJ_R, (uintptr_t)o, 1); }
int vs_self(void) { return cur; }
int vs_spawn(void (*fn)(void *), void *arg) { return mk_thread(fn, 0, arg); }
static void vc_join(vc_t a, const vc_t b) { for (int i = 0; i < VS_MAXT; i++) if (b[i] > a[i]) a[i] = b[i]; }
void vs_join(int id) { visible(K_JOIN, id, 0); vc_join(T[cur].vc, T[id].vc); }
void vs_join_all(void) {
    visible(K_JOINALL, 0, 0);
    for (int k = 0; k < NT; k++) if (k != cur && T[k].st == 2) vc_join(T[cur].vc, T[k].vc);
}
static void vev(int kind, int vk, const char *fmt, va_list ap) {
    char b[4096];
    vsnprintf(b, sizeof b, fmt, ap);
    if (cur >= 0 && vk >= 0) visible(vk, 0, 0);
    h_put(kind, b);
}
void vs_inv(const char *fmt, ...) { va_list ap; va_start(ap, fmt); vev(0, K_INV, fmt, ap); va_end(ap); }
void vs_ret(const char *fmt, ...) { va_list ap; va_start(ap, fmt); vev(1, K_RET, fmt, ap); va_end(ap); }
void vs_note(const char *fmt, ...) { va_list ap; va_start(ap, fmt); vev(2, K_NOTE, fmt, ap); va_end(ap); }
void vs_note_quiet(const char *fmt, ...) { va_list ap; va_start(ap, fmt); vev(2, -1, fmt, ap); va_end(ap); }

/* ------------------------------------------------------------------ race detection */
typedef struct cell { uintptr_t w; uint64_t run; uint32_t k[4][VS_MAXT][8]; } cell; /* 0 read 1 write 2 aread 3 awrite */
#define NCELL (1 << 14)
static cell *cells;
static cell *cellof(uintptr_t w) {
    size_t i = (w * 0x9E3779B97F4A7C15ull) >> 50; int n = 0;
    for (;; i = (i + 1) & (NCELL-1)) {
        cell *c = &cells[i];
        if (c->run == run_id && c->w == w) return c;
        if (c->run != run_id) { memset(c->k, 0, sizeof c->k); c->run = run_id; c->w = w; return c; }
        if (++n == NCELL) { fprintf(stderr, "vsched: shadow full\n"); exit(3); }
    }
}
static struct { uintptr_t a; size_t n; } ign[64]; static int nign;
void vs_ignore_range(const void *p, size_t n) { if (nign < 64) { ign[nign].a = (uintptr_t)p; ign[nign].n = n; nign++; } }
static uintptr_t last_race;
static void race(uintptr_t a, int kind) {
    if (cnt_race++ == 0) {
        for (int i = 0; i < nign; i++) if (a >= ign[i].a && a < ign[i].a + ign[i].n) { cnt_race--; return; }
        ev_raw("{\"k\":\"b\",\"op\":\"race\"}");
        last_race = a;
    }
    (void)kind;
}
static void access_(uintptr_t a, size_t n, int kind) {
    if (cur < 0) return;
    thr *t = &T[cur];
    if (a >= (uintptr_t)t->stk && a < (uintptr_t)t->stk + STKSZ) return;
    if (++nplain > 3000000) { if (!cnt_stuck++) ev_raw("{\"k\":\"s\"}"); run_abort = 1; to_sched(); }
    if (in_arena((void*)a)) {
        blk *b = a_find(a);
        if (!b || a + n > b->a + b->n) { if (!cnt_race++) ev_raw("{\"k\":\"b\",\"op\":\"oob\"}"); }
        else if (b->freed) { if (!cnt_race++) ev_raw("{\"k\":\"b\",\"op\":\"uaf\"}"); }
    }
    for (size_t i = 0; i < n; ) {
        cell *c = cellof((a + i) >> 3);
        for (; i < n; i++) {
            int by = (a + i) & 7;
            for (int u = 0; u < NT; u++) {
                if (u == cur) continue;
                uint32_t my = t->vc[u];
                int bad = 0;
                if (kind == 0) bad = c->k[1][u][by] > my || c->k[3][u][by] > my;
                else if (kind == 1) bad = c->k[0][u][by] > my || c->k[1][u][by] > my || c->k[2][u][by] > my || c->k[3][u][by] > my;
                else if (kind == 2) bad = c->k[1][u][by] > my;
                else bad = c->k[0][u][by] > my || c->k[1][u][by] > my;
                if (bad) race(a, kind);
            }
            c->k[kind][cur][by] = t->vc[cur];
            if (((a + i + 1) >> 3) != c->w) { i++; break; }
        }
    }
}
/* atomic location clocks */
typedef struct aloc { uintptr_t a; uint64_t run; vc_t vc; } aloc;
#define NALOC 8192
static aloc alocs[NALOC];
static aloc *al(uintptr_t a) {
    size_t i = (a * 0x9E3779B97F4A7C15ull) >> 51; int n = 0;
    for (;; i = (i + 1) & (NALOC-1)) {
        aloc *c = &alocs[i];
        if (c->run == run_id && c->a == a) return c;
        if (c->run != run_id) { memset(c, 0, sizeof *c); c->run = run_id; c->a = a; return c; }
        if (++n == NALOC) { fprintf(stderr, "vsched: alocs full\n"); exit(3); }
    }
}
static int is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME; }
static int is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void do_acq(uintptr_t a, int mo) {
    thr *t = &T[cur]; aloc *l = al(a);
    if (is_acq(mo)) vc_join(t->vc, l->vc); else vc_join(t->acqp, l->vc);
}
static void do_rel(uintptr_t a, int mo, int rmw) {
    thr *t = &T[cur]; aloc *l = al(a);
    if (!rmw) memset(l->vc, 0, sizeof(vc_t));
    if (is_rel(mo)) { vc_join(l->vc, t->vc); t->vc[cur]++; }
    else if (t->has_relf) vc_join(l->vc, t->relf);
}
static int releases;
static void wake_spinners(uintptr_t a, size_t n) {
    releases = 0;
    for (int u = 0; u < NT; u++) { T[u].nrd = 0; if (T[u].sp_wait && T[u].sp_any) { T[u].sp_wait = 0; T[u].sp_any = 0; } }
    for (int u = 0; u < NT; u++) if (T[u].sp_wait && T[u].sp_addr + 16 > a && a + n > T[u].sp_addr) { T[u].sp_wait = 0; T[u].sp_cnt = 0; }
}
static int local_addr(uintptr_t a) { return a >= (uintptr_t)T[cur].stk && a < (uintptr_t)T[cur].stk + STKSZ; }

/* many reads without anybody writing: a busy-wait loop over several locations */
static void read_budget(void) {
    thr *t = &T[cur];
    if (++t->nrd > 48) { t->sp_wait = t->sp_any = 1; t->nrd = 0; visible(K_SPINWAIT, 16, ~(size_t)0 >> 1); }
}
static void pre_load(uintptr_t a, size_t n, uint64_t (*rd)(uintptr_t)) {
    thr *t = &T[cur];
    read_budget();
    visible(K_LOAD, a, n);
    uint64_t v = rd(a);
    if (t->sp_addr == a && t->sp_val == v) {
        if (++t->sp_cnt >= 3) {          /* spinning: wait until somebody writes the location */
            t->sp_wait = 1;
            visible(K_SPINWAIT, a, n);
        }
    } else { t->sp_addr = a; t->sp_val = v; t->sp_cnt = 0; }
}
static void nospin(void) { T[cur].sp_addr = 0; T[cur].sp_cnt = 0; T[cur].nrd = 0; }

#define GEN(BITS, TYPE) \
static uint64_t rd##BITS(uintptr_t a) { return (uint64_t)*(volatile TYPE *)a; } \
TYPE __tsan_atomic##BITS##_load(const volatile TYPE *p, int mo) { \
    if (cur < 0 || local_addr((uintptr_t)p)) return *p; \
    pre_load((uintptr_t)p, sizeof *p, rd##BITS); access_((uintptr_t)p, sizeof *p, 2); \
    do_acq((uintptr_t)p, mo); return *p; } \
void __tsan_atomic##BITS##_store(volatile TYPE *p, TYPE v, int mo) { \
    if (cur < 0 || local_addr((uintptr_t)p)) { *p = v; return; } \
    visible(K_STORE, (uintptr_t)p, sizeof *p); nospin(); access_((uintptr_t)p, sizeof *p, 3); \
    do_rel((uintptr_t)p, mo, 0); *p = v; wake_spinners((uintptr_t)p, sizeof *p); } \
static TYPE rmw##BITS(volatile TYPE *p, TYPE v, int mo, int op) { \
    if (!(cur < 0 || local_addr((uintptr_t)p))) { \
        visible(K_RMW, (uintptr_t)p, sizeof *p); nospin(); access_((uintptr_t)p, sizeof *p, 3); \
        do_acq((uintptr_t)p, mo); do_rel((uintptr_t)p, mo, 1); wake_spinners((uintptr_t)p, sizeof *p); } \
    TYPE o = *p; \
    switch (op) { case 0: *p = v; break; case 1: *p = o + v; break; case 2: *p = o - v; break; case 3: *p = o & v; break; \
        case 4: *p = o | v; break; case 5: *p = o ^ v; break; case 6: *p = ~(o & v); break; } \
    return o; } \
TYPE __tsan_atomic##BITS##_exchange(volatile TYPE *p, TYPE v, int mo) { return rmw##BITS(p, v, mo, 0); } \
TYPE __tsan_atomic##BITS##_fetch_add(volatile TYPE *p, TYPE v, int mo) { return rmw##BITS(p, v, mo, 1); } \
TYPE __tsan_atomic##BITS##_fetch_sub(volatile TYPE *p, TYPE v, int mo) { return rmw##BITS(p, v, mo, 2); } \
TYPE __tsan_atomic##BITS##_fetch_and(volatile TYPE *p, TYPE v, int mo) { return rmw##BITS(p, v, mo, 3); } \
TYPE __tsan_atomic##BITS##_fetch_or(volatile TYPE *p, TYPE v, int mo) { return rmw##BITS(p, v, mo, 4); } \
TYPE __tsan_atomic##BITS##_fetch_xor(volatile TYPE *p, TYPE v, int mo) { return rmw##BITS(p, v, mo, 5); } \
TYPE __tsan_atomic##BITS##_fetch_nand(volatile TYPE *p, TYPE v, int mo) { return rmw##BITS(p, v, mo, 6); } \
int __tsan_atomic##BITS##_compare_exchange_strong(volatile TYPE *p, TYPE *e, TYPE v, int mo, int fmo) { \
    int ins = !(cur < 0 || local_addr((uintptr_t)p)); \
    if (ins) { read_budget(); visible(K_RMW, (uintptr_t)p, sizeof *p); } \
    TYPE o = *p; \
    if (o == *e) { if (ins) { nospin(); access_((uintptr_t)p, sizeof *p, 3); do_acq((uintptr_t)p, mo); do_rel((uintptr_t)p, mo, 1); wake_spinners((uintptr_t)p, sizeof *p); } *p = v; return 1; } \
    if (ins) { access_((uintptr_t)p, sizeof *p, 2); do_acq((uintptr_t)p, fmo); } \
    *e = o; return 0; } \
int __tsan_atomic##BITS##_compare_exchange_weak(volatile TYPE *p, TYPE *e, TYPE v, int mo, int fmo) { return __tsan_atomic##BITS##_compare_exchange_strong(p, e, v, mo, fmo); } \
TYPE __tsan_atomic##BITS##_compare_exchange_val(volatile TYPE *p, TYPE e, TYPE v, int mo, int fmo) { TYPE x = e; __tsan_atomic##BITS##_compare_exchange_strong(p, &x, v, mo, fmo); return x; }
GEN(8, uint8_t) GEN(16, uint16_t) GEN(32, uint32_t) GEN(64, uint64_t)

void __tsan_atomic_thread_fence(int mo) {
    if (cur < 0) return;
    thr *t = &T[cur];
    if (is_acq(mo)) { vc_join(t->vc, t->acqp); memset(t->acqp, 0, sizeof(vc_t)); }
    if (is_rel(mo)) { memcpy(t->relf, t->vc, sizeof(vc_t)); t->has_relf = 1; t->vc[cur]++; }
}
void __tsan_atomic_signal_fence(int mo) { (void)mo; }
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **a, void *b) { (void)a; (void)b; }
void __tsan_vptr_read(void **a) { (void)a; }
#define RW(N) void __tsan_read##N(void *p) { access_((uintptr_t)p, N, 0); } void __tsan_write##N(void *p) { access_((uintptr_t)p, N, 1); } \
 void __tsan_unaligned_read##N(void *p) { access_((uintptr_t)p, N, 0); } void __tsan_unaligned_write##N(void *p) { access_((uintptr_t)p, N, 1); } \
 void __tsan_volatile_read##N(void *p) { access_((uintptr_t)p, N, 0); } void __tsan_volatile_write##N(void *p) { access_((uintptr_t)p, N, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access_((uintptr_t)p, n, 0); }
void __tsan_write_range(void *p, size_t n) { access_((uintptr_t)p, n, 1); }
void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t); void *__real_memset(void *, int, size_t);
/* used by instrumented code only (compiled with -Dmemcpy=vs_memcpy ...) */
void *vs_memcpy(void *d, const void *s, size_t n) { if (n) { access_((uintptr_t)s, n, 0); access_((uintptr_t)d, n, 1); } return memcpy(d, s, n); }
void *vs_memmove(void *d, const void *s, size_t n) { if (n) { access_((uintptr_t)s, n, 0); access_((uintptr_t)d, n, 1); } return memmove(d, s, n); }
void *vs_memset(void *d, int c, size_t n) { if (n) access_((uintptr_t)d, n, 1); return memset(d, c, n); }

/* ------------------------------------------------------------------ pthread / semaphores */
#define OBJACQ(o) vc_join(T[cur].vc, (o)->vc)
#define OBJREL(o) do { vc_join((o)->vc, T[cur].vc); T[cur].vc[cur]++; } while (0)
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const void *a) { (void)a; if (cur >= 0) { obj *o = ob(m); o->owner = -1; o->count = 0; o->type = 1; } return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { (void)m; return 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
    if (cur < 0) return 0;
    visible(K_LOCK, (uintptr_t)m, 8); nospin();
    obj *o = ob(m); o->owner = cur; OBJACQ(o); return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
    if (cur < 0) return 0;
    read_budget();
    visible(K_RMW, (uintptr_t)m, 8);
    obj *o = ob(m); if (o->owner >= 0) return EBUSY;
    o->owner = cur; OBJACQ(o); return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
    if (cur < 0) return 0;
    visible(K_OBJ_W, (uintptr_t)m, 8); nospin();
    obj *o = ob(m);
    if (o->owner != cur) ev_raw("{\"k\":\"b\",\"op\":\"badunlock\"}");
    OBJREL(o); o->owner = -1; wake_spinners(0, 0); return 0;
}
int __wrap_pthread_rwlock_init(pthread_rwlock_t *m, const void *a) { (void)a; if (cur >= 0) { obj *o = ob(m); o->owner = -1; o->readers = 0; } return 0; }
int __wrap_pthread_rwlock_destroy(pthread_rwlock_t *m) { (void)m; return 0; }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m) { if (cur < 0) return 0; visible(K_LOCK, (uintptr_t)m, 8); obj *o = ob(m); o->owner = cur; OBJACQ(o); return 0; }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m) { if (cur < 0) return 0; visible(K_RDLOCK, (uintptr_t)m, 8); obj *o = ob(m); o->readers++; OBJACQ(o); return 0; }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *m) { if (cur < 0) return 0; visible(K_OBJ_W, (uintptr_t)m, 8); obj *o = ob(m); OBJREL(o); if (o->owner == cur) o->owner = -1; else o->readers--; return 0; }
int __wrap_pthread_spin_init(pthread_spinlock_t *m, int s) { (void)s; if (cur >= 0) { obj *o = ob((void*)m); o->owner = -1; } return 0; }
int __wrap_pthread_spin_lock(pthread_spinlock_t *m) { return __wrap_pthread_mutex_lock((void*)m); }
int __wrap_pthread_spin_unlock(pthread_spinlock_t *m) { return __wrap_pthread_mutex_unlock((void*)m); }
int __wrap_pthread_cond_init(pthread_cond_t *c, const void *a) { (void)a; if (cur >= 0) { obj *o = ob(c); o->wmask = o->sigmask = 0; } return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t *c) { (void)c; return 0; }
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    if (cur < 0) return 0;
    visible(K_OBJ_W, (uintptr_t)m, 8);
    obj *o = ob(m); if (o->owner != cur) ev_raw("{\"k\":\"b\",\"op\":\"badunlock\"}");
    OBJREL(o); o->owner = -1;
    obj *q = ob(c); q->wmask |= 1u << cur; q->sigmask &= ~(1u << cur);
    visible(K_COND, (uintptr_t)c, 8);
    q = ob(c); q->sigmask &= ~(1u << cur); q->wmask &= ~(1u << cur); OBJACQ(q);
    visible(K_LOCK, (uintptr_t)m, 8);
    o = ob(m); o->owner = cur; OBJACQ(o);
    return 0;
}
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const void *ts) { (void)ts; return __wrap_pthread_cond_wait(c, m); }
int __wrap_pthread_cond_signal(pthread_cond_t *c) {
    if (cur < 0) return 0;
    visible(K_OBJ_W, (uintptr_t)c, 8); obj *q = ob(c); OBJREL(q);
    unsigned w = q->wmask & ~q->sigmask;
    if (w) q->sigmask |= w & -w;
    return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { if (cur < 0) return 0; visible(K_OBJ_W, (uintptr_t)c, 8); obj *q = ob(c); OBJREL(q); q->sigmask |= q->wmask; return 0; }
int __wrap_sem_init(sem_t *s, int sh, unsigned v) { (void)sh; if (cur >= 0) { obj *o = ob(s); o->count = v; o->type = 2; } return 0; }
int __wrap_sem_destroy(sem_t *s) { (void)s; return 0; }
/* a signal whose handler returns: a thread that is blocked in sem_wait gets EINTR */
void vs_signal(int id) {
    if (cur < 0) return;
    visible(K_RMW, 16, ~(size_t)0 >> 1); nospin();
    if (id >= 0 && id < NT && T[id].st == 1 && T[id].pend.kind == K_SEMW) T[id].intr = 1;
}
int __wrap_sem_wait(sem_t *s) { if (cur < 0) return 0; visible(K_SEMW, (uintptr_t)s, 8); nospin();
    if (T[cur].intr) { T[cur].intr = 0; errno = EINTR; return -1; } obj *o = ob(s); o->count--; OBJACQ(o); return 0; }
int __wrap_sem_trywait(sem_t *s) { if (cur < 0) return 0; read_budget(); visible(K_RMW, (uintptr_t)s, 8); obj *o = ob(s); if (o->count <= 0) { errno = EAGAIN; return -1; } o->count--; OBJACQ(o); return 0; }
int __wrap_sem_timedwait(sem_t *s, const void *ts) { (void)ts; return __wrap_sem_wait(s); }
int __wrap_sem_post(sem_t *s) { if (cur < 0) return 0; visible(K_RMW, (uintptr_t)s, 8); nospin(); obj *o = ob(s); OBJREL(o); o->count++; wake_spinners(0, 0); return 0; }
int __wrap_sem_getvalue(sem_t *s, int *v) { if (cur >= 0) read_budget(); if (cur >= 0) visible(K_OBJ_R, (uintptr_t)s, 8); *v = ob(s)->count; return 0; }
int __wrap_pthread_create(pthread_t *t, const void *attr, void *(*fn)(void *), void *arg) {
    (void)attr;
    if (cur < 0) { fprintf(stderr, "vsched: pthread_create outside run\n"); exit(3); }
    int id = mk_thread(0, fn, arg); *t = (pthread_t)(id + 1);
    return 0;
}
int __wrap_pthread_join(pthread_t t, void **r) {
    int id = (int)t - 1;
    if (id < 0 || id >= NT) return ESRCH;
    visible(K_JOIN, id, 0);
    vc_join(T[cur].vc, T[id].vc); if (r) *r = T[id].ret; return 0;
}
int __wrap_pthread_detach(pthread_t t) { int id = (int)t - 1; if (id >= 0 && id < NT) T[id].detached = 1; return 0; }
pthread_t __wrap_pthread_self(void) { return cur < 0 ? 999 : (pthread_t)(cur + 1); }
void __wrap_pthread_exit(void *r) { if (cur >= 0) { T[cur].ret = r; T[cur].st = 2; vs_switch(&T[cur].c, &mainctx); } abort(); }
int __wrap_sched_yield(void) { vs_yield(); return 0; }
int __wrap_usleep(unsigned u) { (void)u; vs_yield(); return 0; }
int __wrap_nanosleep(const void *a, void *b) { (void)a; (void)b; vs_yield(); return 0; }
int __wrap_pthread_once(pthread_once_t *o_, void (*fn)(void)) { obj *o = ob(o_); visible(K_RMW, (uintptr_t)o_, 4); if (!o->count) { o->count = 1; fn(); OBJREL(o); } else OBJACQ(o); return 0; }
int __wrap_pthread_setaffinity_np(pthread_t t, size_t n, const void *s) { (void)t; (void)n; (void)s; return 0; }

void __assert_fail(const char *e, const char *f, unsigned l, const char *fn) {
    (void)f; (void)l; (void)fn;
    if (cur < 0) { fprintf(stderr, "assert outside run: %s\n", e); exit(3); }
    ev_raw("{\"k\":\"b\",\"op\":\"assertion\"}");
    run_abort = 1; to_sched();
    abort();
}

/* ------------------------------------------------------------------ exploration */
typedef struct { uint16_t en, sleep, done; int8_t ch; int8_t last; int8_t pre; } node;
static node *stk_; static size_t depth, cap_;
static uint64_t rs;
static uint64_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }

static void emit(vs_stats *st) {
    /* canonical order: adjacent invocations commute, adjacent returns commute */
    int n = nhev;
    for (int pass = 0; pass < n; pass++) {
        int sw = 0;
        for (int i = 0; i + 1 < n; i++)
            if (hev_[i].kind == hev_[i+1].kind && hev_[i].kind < 2 - vs_strict_order && hev_[i].t > hev_[i+1].t) { hev x = hev_[i]; hev_[i] = hev_[i+1]; hev_[i+1] = x; sw = 1; }
        if (!sw) break;
    }
    uint64_t h = 1469598103934665603ull;
    for (int i = 0; i < n; i++) { h = fnv(hbuf + hev_[i].off, h); h ^= hev_[i].kind + 7; h *= 1099511628211ull; }
    if (hset_add(h)) {
        st->hist++;
        printf("H[");
        for (int i = 0; i < n; i++) printf("%s%s", i ? "," : "", hbuf + hev_[i].off);
        printf("]\n");
    }
}

static int run_once(const vs_test *t, const vs_opts *o, vs_stats *st, size_t prefix) {
    run_id++;
    NT = 0; cur = -1; nhev = 0; hlen = 0; run_abort = 0; cnt_race = cnt_stuck = 0; nplain = 0; releases = 0; nign = 0;
    arena_off = 0; nblk = 0;
    mk_thread(t->body, 0, t->arg);
    int last = -1, pre = 0; uint16_t sleep = 0; size_t d = 0; uint64_t steps = 0;
    int prio[VS_MAXT]; for (int i = 0; i < VS_MAXT; i++) prio[i] = (int)(rnd() % 1000000);
    int sticky = (int)(rnd() % 4), pct = (int)(rnd() & 1); uint64_t chg[3]; for (int i = 0; i < 3; i++) chg[i] = rnd() % 60;
    for (;;) {
        uint16_t en = 0; int alive = 0;
        for (int i = 0; i < NT; i++) { if (T[i].st == 1) alive++; if (enabled(i)) en |= 1u << i; }
        if (run_abort) break;
        if (!alive) break;
        if (!en && releases++ < 20) {   /* let busy-waiters look again before calling it stuck */
            for (int i = 0; i < NT; i++) if (T[i].st == 1 && T[i].sp_wait) { T[i].sp_wait = T[i].sp_any = 0; T[i].nrd = 0; T[i].sp_cnt = 0; if (enabled(i)) en |= 1u << i; }
        }
        if (!en) { st->stuck++; cur = -1; ev_raw("{\"k\":\"s\"}"); break; }
        if (++steps > 200000) { st->stuck++; ev_raw("{\"k\":\"b\",\"op\":\"livelock\"}"); break; }
        int ch = -1;
        if ((en & (en - 1)) == 0 && !(sleep & en)) {
            ch = __builtin_ctz(en);         /* forced */
        } else if (o->mode == VS_RANDOM) {
            if (pct) {
                for (int i = 0; i < 3; i++) if (steps == chg[i] && last >= 0) prio[last] = -(int)i - 1;
                int best = -1;
                for (int i = 0; i < NT; i++) if ((en >> i & 1) && (best < 0 || prio[i] > prio[best])) best = i;
                ch = best;
            } else if (last >= 0 && (en >> last & 1) && (int)(rnd() % 4) < sticky) ch = last;
            else { int k = rnd() % __builtin_popcount(en); uint16_t m = en; while (k--) m &= m - 1; ch = __builtin_ctz(m); }
        } else {
            if (d == depth) {
                if (depth == cap_) { cap_ = cap_ ? cap_ * 2 : 1024; stk_ = __real_realloc(stk_, cap_ * sizeof *stk_); }
                node *nd = &stk_[depth++];
                nd->done = 0; nd->ch = -1;
            }
            node *nd = &stk_[d];
            nd->en = en; nd->last = last; nd->pre = pre;
            nd->sleep = o->mode == VS_DFS ? sleep : 0;
            if (nd->ch < 0) {
                uint16_t cand = en & ~nd->sleep & ~nd->done;
                if (o->mode == VS_BOUND && last >= 0 && (en >> last & 1) && pre >= o->bound) cand &= 1u << last;
                if (!cand) { st->blocked++; cur = -1; return 0; }
                nd->ch = (last >= 0 && (cand >> last & 1)) ? last : __builtin_ctz(cand);
            }
            ch = nd->ch;
            d++;
            sleep = nd->sleep | nd->done;
        }
        if (o->mode == VS_DFS) {
            uint16_t s2 = 0;
            for (int u = 0; u < NT; u++) if ((sleep >> u & 1) && u != ch && !dependent(&T[u].pend, &T[ch].pend)) s2 |= 1u << u;
            sleep = s2;
        }
        if (last >= 0 && ch != last && (en >> last & 1)) pre++;
        last = ch;
        cur = ch;
        vs_switch(&mainctx, &T[ch].c);
        cur = -1;
    }
    st->steps += steps;
    (void)prefix;
    emit(st);
    if (cnt_race) st->races++;
    return 1;
}
void vs_explore(const vs_test *t, const vs_opts *o, vs_stats *st) {
    if (!arena) { arena = mmap(0, ARENA, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0); cells = __real_calloc(NCELL, sizeof(cell)); }
    struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
    memset(st, 0, sizeof *st);
    if (hset) { memset(hset, 0, hset_cap * 8); hset_n = 0; }
    rs = o->seed * 2654435761u + 88172645463325252ull;
    depth = 0;
    for (;;) {
        run_once(t, o, st, depth);
        st->runs++;
        clock_gettime(CLOCK_MONOTONIC, &t1);
        double el = (t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) / 1e9;
        if (st->races || st->stuck) { /* a violation is already on record; a few more runs suffice */ if (st->hist > 20 && st->races + st->stuck > 3) break; }
        if (o->mode == VS_RANDOM) {
            if (st->runs >= o->max_runs || el > o->max_seconds || st->hist >= o->max_hist) break;
            continue;
        }
        /* backtrack */
        while (depth > 0) {
            node *nd = &stk_[depth - 1];
            if (nd->ch >= 0) nd->done |= 1u << nd->ch;
            uint16_t cand = nd->en & ~nd->sleep & ~nd->done;
            if (o->mode == VS_BOUND && nd->last >= 0 && (nd->en >> nd->last & 1) && nd->pre >= o->bound) cand &= 1u << nd->last;
            if (cand) { nd->ch = __builtin_ctz(cand); break; }
            depth--;
        }
        if (depth == 0) { st->exhausted = 1; break; }
        if (st->runs >= o->max_runs || el > o->max_seconds || st->hist >= o->max_hist) break;
    }
    printf("S{\"label\":\"%s\",\"mode\":%d,\"bound\":%d,\"runs\":%lu,\"blocked\":%lu,\"hist\":%lu,\"steps\":%lu,\"exhausted\":%d}\n",
        t->label, o->mode, o->bound, st->runs, st->blocked, st->hist, st->steps, st->exhausted);
    fflush(stdout);
}
