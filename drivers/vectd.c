#include "vd.h"
#include <assert.h>
#include "utils/utils.h"
#include "fast/vect.h"
typedef struct { int a; short b; char c[5]; } S;   /* 12 bytes */
VECT_TYPEDEF(vl, int64_t); VECT_TYPEDEF(vc, signed char); VECT_TYPEDEF(vs, S);
static uint64_t rs; static int TY;
static uint32_t rnd(void) { rs = rs * 6364136223846793005ULL + 1442695040888963407ULL; uint32_t k = rs >> 60, v = rs >> 24; return k == 0 ? 0xffffffffu : k == 1 ? 0 : k == 2 ? 0x80000000u : v; }
static uint64_t rnd64(void) { uint64_t h = rnd(); return h << 32 | rnd(); }
static int64_t Tl(long x) { return x; } static long Fl(int64_t x) { return x; }
static signed char Tc(long x) { return x; } static long Fc(signed char x) { return x; }
static S Ts(long x) { S s; memset(&s, 0, sizeof s); s.a = x; s.b = -x; s.c[4] = x & 63; return s; }
static long Fs(S s) { if (s.b != (short)-s.a || s.c[4] != (s.a & 63)) return -12345; return s.a; }
#define GEN(N) \
static v##N a##N, b##N; \
static int cmp##N(const void *p, const void *q) { long x = F##N(*(typeof(a##N.arr))p), y = F##N(*(typeof(a##N.arr))q); return (x > y) - (x < y); } \
static void out##N(long r) { \
    v##N *v[2] = { &a##N, &b##N }; vd_beg(); vd_ki("r", r); \
    for (int j = 0; j < 2; j++) { \
        static long tmp[200000]; size_t n = 0; int ok = v[j]->cap >= v[j]->size; typeof(a##N.arr) p; size_t i; \
        VECT_FOR_EACH(v[j], p) { if (n < 200000) tmp[n++] = F##N(*p); } \
        ok &= n == VECT_LEN(v[j]) && VECT_CAPACITY(v[j]) >= n; \
        VECT_FOR_EACHi(v[j], i, p) { ok &= F##N(VECT_ELEM(v[j], i)) == tmp[i] && p == &VECT_ELEM(v[j], i); } \
        if (n) ok &= F##N(VECT_FIRST_ELEM(v[j])) == tmp[0] && F##N(VECT_LAST_ELEM(v[j])) == tmp[n-1] && F##N(VECT_TOP(v[j])) == tmp[n-1]; \
        vd_kl(j ? "b" : "a", tmp, n); vd_ki(j ? "okb" : "oka", ok); } \
    vd_end(); } \
static void beg##N(long ca, long cb) { VECT_INIT(&a##N, ca); VECT_INIT(&b##N, cb); } \
static void fin##N(void) { VECT_FINI(&a##N); VECT_FINI(&b##N); } \
static void op##N(const char *op) { \
    v##N *a = &a##N, *b = &b##N; long r = 0; \
    if (vd_is(op, "pushb")) { long x = vd_int(); VECT_PUSH_BACK(a, T##N(x)); } \
    else if (vd_is(op, "pushf")) { long x = vd_int(); VECT_PUSH_FRONT(a, T##N(x)); } \
    else if (vd_is(op, "pushn")) { long n = vd_int(); VECT_ENSURE(a, n); for (long i = 1; i <= n; i++) VECT_GET_NEXT(a) = T##N(i); } \
    else if (vd_is(op, "dupf")) { VECT_PUSH_FRONT(a, VECT_LAST_ELEM(a)); } \
    else if (vd_is(op, "dupb")) { VECT_PUSH_BACK(a, VECT_FIRST_ELEM(a)); } \
    else if (vd_is(op, "popb")) r = F##N(VECT_POP_BACK(a)); \
    else if (vd_is(op, "popf")) r = F##N(VECT_POP_FRONT(a)); \
    else if (vd_is(op, "pop")) VECT_POP(a); \
    else if (vd_is(op, "set")) { long i = vd_int(), x = vd_int(); VECT_ELEM(a, i) = T##N(x); } \
    else if (vd_is(op, "reset")) VECT_RESET(a); \
    else if (vd_is(op, "reserve")) { long n = vd_int(); VECT_RESERVE(a, n); r = a->cap >= n; for (size_t i = a->size; i < a->cap; i++) *(volatile char*)&a->arr[i]; } \
    else if (vd_is(op, "ensure")) { long n = vd_int(); VECT_ENSURE(a, n); r = a->cap >= a->size + n; if (n) a->arr[a->size + n - 1] = T##N(9); } \
    else if (vd_is(op, "copy")) VECT_COPY(b, a); \
    else if (vd_is(op, "copyself")) VECT_COPY(a, a); \
    else if (vd_is(op, "appendv")) VECT_APPEND_VECT(a, b); \
    else if (vd_is(op, "appself")) VECT_APPEND_VECT(a, a); \
    else if (vd_is(op, "swap")) VECT_SWAP(a, b); \
    else if (vd_is(op, "sort")) VECT_SORT(a, cmp##N); \
    else if (vd_is(op, "shuffle")) VECT_SHUFFLE(a, rnd); \
    else if (vd_is(op, "sample")) { long k = vd_int(); r = VECT_SAMPLE(b, a, k, rnd64); } \
    else if (vd_is(op, "pick")) r = F##N(VECT_RAND_ELEM(a, rnd)); \
    else if (vd_is(op, "from")) { VECT_FINI(b); VECT_INIT_FROM(b, a); } \
    else if (vd_is(op, "lit")) { VECT_PUSH_FRONT(a, LIT##N); VECT_PUSH_BACK(a, LIT##N); } \
    else r = -99; out##N(r); }
#define LITl 7
#define LITc 7
#define LITs Ts(7)
GEN(l) GEN(c) GEN(s)
static void vd_begin(void) { TY = vd_int(); long a = vd_int(), b = vd_int(); rs = vd_u64() * 7919 + 1; if (TY == 0) begl(a, b); else if (TY == 1) begc(a, b); else begs(a, b); }
static void vd_op(const char *op) { if (TY == 0) opl(op); else if (TY == 1) opc(op); else ops(op); }
static void vd_finish(void) { if (TY == 0) finl(); else if (TY == 1) finc(); else fins(); }
