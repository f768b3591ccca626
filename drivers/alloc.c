#include "vd.h"
#include "utils/mempool.h"
#include "utils/arena.h"
/* the underlying allocator: numbered chunks */
static struct { uint8_t *p; size_t n; int live; } ch[4096]; static int nch, nlive, failnext;
void *vd_malloc(size_t n) {
    if (failnext && !--failnext) return 0;
    if (n > (1u << 30)) return 0;
    if (nch >= 4096) abort();
    ch[nch].p = (uint8_t*)malloc(n ? n : 1); memset(ch[nch].p, 0x5e, n); ch[nch].n = n; ch[nch].live = 1; nlive++;
    return ch[nch++].p;
}
void *vd_calloc(size_t a, size_t b) { void *p = vd_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
void vd_free(void *p) { if (!p) return; for (int i = 0; i < nch; i++) if (ch[i].live && ch[i].p == p) { ch[i].live = 0; nlive--; free(p); return; } abort(); }
static void *tal(void *c, size_t n) { if (c != ch) abort(); return vd_malloc(n); }
static void tfr(void *c, void *p) { if (c != ch) abort(); vd_free(p); }

static int kind, up, objchunk; static unsigned blk, mx, unit, msz, mis; static mempool MP, *M; static arena_t A;
static uint8_t *mem, *raw;
static struct { uint8_t *p; size_t n; uint8_t tag; } L[8192]; static int seq;
static void vd_begin(void) {
    kind = vd_int(); blk = vd_int(); mx = vd_int(); unit = vd_int(); msz = vd_int(); mis = vd_int();
    nch = nlive = failnext = up = seq = 0; M = 0; A = 0; raw = mem = 0; memset(L, 0, sizeof L); memset(&MP, 0x5a, sizeof MP);
}
static int bad(void) {
    int b = 0;
    for (int i = 0; i < 8192; i++) if (L[i].p) for (size_t j = 0; j < L[i].n; j++) if (L[i].p[j] != (uint8_t)(L[i].tag + j)) { b++; break; }
    return b;
}
static void vd_op(const char *op) {
    vd_beg();
    if (vd_is(op, "init")) {
        long r = 0; memmgr tr; memmgr_init(&tr, tal, tfr, ch);
        memmgr *t = (blk + mx) % 3 == 0 ? 0 : &tr;      /* default allocator too */
        if (kind == 4) r = arena_new(&A, blk);
        else if (kind == 0) { M = &MP; r = mempool_init(M, t, blk, mx, unit); }
        else if (kind == 1) { r = mempool_new(&M, t, blk, mx, unit); }
        else { raw = (uint8_t*)malloc(msz + mis + 1); mem = raw + mis + 1;     /* exact end: redzone behind it; mis+1 canary bytes before */
               memset(raw, 0xc3, mis + 1); memset(mem, 0xa5, msz);
               if (kind == 2) { M = &MP; r = mempool_init_from_mem(M, blk, mem, msz); } else r = mempool_new_from_mem(&M, blk, mem, msz);
               ch[0].p = mem; ch[0].n = msz; ch[0].live = 1; nch = 1; }
        up = r == 0;
        vd_ki("r", r); vd_ki("tot", kind == 4 || r ? 0 : mempool_total_blocks(M)); vd_ki("f", failnext != 0);
    } else if (vd_is(op, "alloc") || vd_is(op, "huge")) {
        long id = vd_int(), n = vd_int(); size_t sz = n;
        static const size_t H[] = { SIZE_MAX, SIZE_MAX - 3, SIZE_MAX - 7, SIZE_MAX - 31, (size_t)1 << 63, (size_t)1 << 60, ((size_t)1 << 60) + 8, (size_t)1 << 59, SIZE_MAX / 16, SIZE_MAX / 16 - 8 };
        if (op[0] == 'h') sz = H[n % 10];
        uint8_t *p = !up ? 0 : kind == 4 ? (uint8_t*)arena_alloc(A, sz) : (uint8_t*)mempool_alloc(M);
        if (kind != 4) sz = blk;
        vd_ki("r", !up ? -1 : p != 0);
        long c = -1, o = 0, cs = 0;
        if (p && op[0] != 'h') {
            for (int i = 0; i < nch; i++) if (ch[i].live && p >= ch[i].p && p < ch[i].p + ch[i].n + (sz == 0)) { c = i; cs = ch[i].n; o = p - ch[i].p + (((uintptr_t)ch[i].p) & 7) * 0; break; }
            /* alignment is about the address, not the offset */
            if (((uintptr_t)p) % 8) o = -1; else { o = o + (8 - o % 8) % 8 * 0; }
            if (o >= 0 && o % 8) { cs += 8 - o % 8; o += 8 - o % 8; }      /* misaligned chunk base: rebase */
            L[id].p = p; L[id].n = sz; L[id].tag = (uint8_t)(37 * ++seq);
            for (size_t j = 0; j < sz; j++) p[j] = (uint8_t)(L[id].tag + j);
        }
        vd_ki("c", c); vd_ki("o", c < 0 ? -1 : o); vd_ki("cs", cs); vd_ki("f", failnext != 0);
    } else if (vd_is(op, "free")) {
        long id = vd_int();
        int b = bad();
        if (L[id].p) { uint8_t *p = L[id].p; L[id].p = 0; mempool_free(M, p); }
        vd_ki("bad0", b);
    } else if (vd_is(op, "fail")) failnext = vd_int();
    int b = bad();
    if (vd_is(op, "fini")) {
        memset(L, 0, sizeof L);
        if (kind == 4) arena_delete(A);
        else if (up) { if (kind & 1) mempool_delete(M); else mempool_fini(M); }
        if (kind == 2 || kind == 3) { for (unsigned i = 0; i <= mis; i++) if (raw[i] != 0xc3) b++; free(raw); }
        up = 0; vd_ki("r", nlive);
    }
    vd_ki("nc", nch - (kind == 1 ? 1 : kind == 4 ? 1 : 0)); vd_ki("bad", b); vd_end();
}
static void vd_finish(void) { }
