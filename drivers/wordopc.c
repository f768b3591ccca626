#include <stdint.h>
#include "fast/byteorder.h"
#include "utils/utils.h"
#include "utils/nospec.h"
#include "utils/typeutils.h"
#include "fast/tmutils.h"
static uint64_t k1(int m) {
#define x 0x0102030405060708ull
    switch (m) {
#include "wordop.inc"
    } return 0; }
#undef x
static uint64_t k2(int m) {
#define x 0xffull
    switch (m) {
#include "wordop.inc"
    } return 0; }
#undef x
static uint64_t k3(int m) {
#define x 0xff00000000000001ull
    switch (m) {
#include "wordop.inc"
    } return 0; }
#undef x
static uint64_t k4(int m) {
#define x 0xfeffdadb89ab0f24ull
    switch (m) {
#include "wordop.inc"
    } return 0; }
#undef x
uint64_t c_konst(int m, int k) { return k == 1 ? k1(m) : k == 2 ? k2(m) : k == 3 ? k3(m) : k4(m); }
uint64_t c_align(int o, uint64_t v, uint64_t n, int b) {
    uint32_t w = v;
    if (b == 8) switch (o) { case 0: return _ALIGN_UP(v, n); case 1: return _ALIGN_DOWN(v, n); case 2: return _IS_ALIGNED(v, n); case 3: return _IS_POW2(v); default: return NEXTPOW2(v); }
    switch (o) { case 0: return _ALIGN_UP(w, n); case 1: return _ALIGN_DOWN(w, n); case 2: return _IS_ALIGNED(w, n); case 3: return _IS_POW2(w); default: return NEXTPOW2(w); }
}
uint64_t c_unit(int m, uint64_t n) {
    switch (m) { case 1: return _Second(n); case 2: return _Minute(n); case 3: return _Hour(n); case 4: return _Millisecond(n); case 5: return _Microsecond(n); case 6: return _Nanosecond(n);
                 case 7: return _SEC(n); case 8: return _MSEC(n); default: return _USEC(n); }
}
uint64_t c_uniti(int m, int n) {
    switch (m) { case 1: return _Second(n); case 2: return _Minute(n); case 3: return _Hour(n); case 4: return _Millisecond(n); case 5: return _Microsecond(n); case 6: return _Nanosecond(n);
                 case 7: return _SEC(n); case 8: return _MSEC(n); default: return _USEC(n); }
}
static uint64_t fsec, fsub;
int __wrap_gettimeofday(struct timeval *t, void *z) { t->tv_sec = fsec; t->tv_usec = fsub; return 0; }
int __wrap_clock_gettime(clockid_t c, struct timespec *t) { t->tv_sec = fsec; t->tv_nsec = fsub; return 0; }
uint64_t c_clock(int m, uint64_t x, uint64_t y) { fsec = x; fsub = y; return m == 1 ? now() : m == 2 ? timenow_us() : timenow(); }
uint64_t c_index(uint64_t i, uint64_t s, int b) { if (b == 8) return array_index_nospec(i, s); uint32_t j = i, t = s; return array_index_nospec(j, t); }
