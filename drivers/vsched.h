/* vsched - deterministic scheduler used to explore interleavings of real code.
 *
 * The harness (and the code under test) is compiled with -fsanitize=thread but linked with this
 * runtime instead of libtsan: every atomic access and every pthread/semaphore call becomes a
 * scheduling point of a coroutine scheduler; plain accesses feed a vector-clock race detector
 * that honours the memory orders written in the source. */
#ifndef VSCHED_H
#define VSCHED_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
#define VS_MAXT 10
typedef struct {
    void (*body)(void *);       /* runs as thread 0 */
    void *arg;
    const char *label;
} vs_test;

/* exploration modes */
enum { VS_DFS = 0, VS_BOUND = 1, VS_RANDOM = 2 };
typedef struct {
    int mode, bound;            /* preemption bound for VS_BOUND */
    uint64_t max_runs, seed;
    double max_seconds;
    size_t max_hist;            /* stop when that many distinct histories are known */
} vs_opts;
typedef struct { uint64_t runs, blocked, hist, steps, races, stuck; int exhausted; } vs_stats;

void vs_explore(const vs_test *t, const vs_opts *o, vs_stats *st);
/* called from threads under test */
int  vs_spawn(void (*fn)(void *), void *arg);
void vs_join_all(void);                     /* wait for every other thread */
void vs_join(int id);
void vs_inv(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void vs_ret(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void vs_note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));  /* atomic event */
void vs_note_quiet(const char *fmt, ...) __attribute__((format(printf, 1, 2))); /* no scheduling point */
void vs_yield(void);
void vs_signal(int id);  /* interrupt the thread if it is blocked in sem_wait */
void vs_point(const void *obj, int write);
int  vs_self(void);
extern int vs_strict_order;                 /* order of returns among themselves matters */
void vs_ignore_range(const void *p, size_t n); /* no race reports for [p,p+n) in this run */
#define VS_NOTSAN __attribute__((no_sanitize("thread")))
#ifdef __cplusplus
}
#endif
#endif
