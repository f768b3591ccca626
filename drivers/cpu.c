/* processor binding over a scheduler that only records */
#include "vd.h"
#include <sched.h>
#include <unistd.h>
#include <semaphore.h>
#include <pthread.h>
#include "utils/cpu.h"
#define NT 3
static int n; static cpu_set_t mask[NT + 1]; static pthread_t th[NT + 1]; static sem_t go[NT + 1], done;
static struct { int op, who, cpu, ret, stop; } cmd;
static int inside;
static int set(pthread_t t, size_t sz, const cpu_set_t *m) {
    cpu_set_t x; CPU_ZERO(&x); int any = 0; int lim = sz * 8; for (int i = 0; i < n && i < lim; i++) if (CPU_ISSET_S(i, sz, m)) { CPU_SET(i, &x); any = 1; }
    if (!any) return EINVAL;
    for (int i = 1; i <= NT; i++) if (pthread_equal(th[i], t)) mask[i] = x;
    return 0;
}
int __wrap_sched_setaffinity(pid_t p, size_t sz, const cpu_set_t *m) {
    if (p == getpid()) p = 0;
    if (p) { for (int i = 1; i <= NT; i++) if (pthread_equal(th[i], pthread_self()) && p != gettid()) { errno = ESRCH; return -1; } }
    int r = set(pthread_self(), sz, m); if (r) { errno = r; return -1; } return 0; }
int __wrap_pthread_setaffinity_np(pthread_t t, size_t sz, const cpu_set_t *m) { return set(t, sz, m); }
int __wrap_sched_getaffinity(pid_t p, size_t sz, cpu_set_t *m) { (void)p; CPU_ZERO_S(sz, m); for (int i = 1; i <= NT; i++) if (pthread_equal(th[i], pthread_self())) memcpy(m, &mask[i], sz < sizeof(cpu_set_t) ? sz : sizeof(cpu_set_t)); return 0; }
long __real_sysconf(int k);
long __wrap_sysconf(int k) { if (inside && k == _SC_NPROCESSORS_ONLN) return n; if (inside && k == _SC_NPROCESSORS_CONF) return n + 2; return __real_sysconf(k); }
static void *run(void *a) {
    int me = (int)(long)a; for (;;) {
        sem_wait(&go[me]); if (cmd.stop) return 0;
        inside = 1; cmd.ret = 0;
        if (cmd.op == 0) cmd.ret = sys_cpu_getavail(); else if (cmd.op == 1) cmd.ret = sys_cpu_set_process_affinity(cmd.cpu);
        else if (cmd.op == 2) sys_cpu_set_thread_affinity(th[cmd.who], cmd.cpu); else sys_cpu_set_my_thread_affinity(cmd.cpu);
        inside = 0; sem_post(&done);
    }
}
static void vd_begin(void) {
    n = vd_int(); cmd.stop = 0; sem_init(&done, 0, 0);
    for (int i = 1; i <= NT; i++) { CPU_ZERO(&mask[i]); for (int k = 0; k < n; k++) CPU_SET(k, &mask[i]); sem_init(&go[i], 0, 0); if (pthread_create(&th[i], 0, run, (void *)(long)i)) exit(9); }
}
static void vd_finish(void) { cmd.stop = 1; for (int i = 1; i <= NT; i++) { sem_post(&go[i]); pthread_join(th[i], 0); sem_destroy(&go[i]); } sem_destroy(&done); }
static void vd_op(const char *op) {
    int t = 1; if (!strcmp(op, "avail")) cmd.op = 0;
    else { t = vd_int(); cmd.op = !strcmp(op, "process") ? 1 : !strcmp(op, "thread") ? 2 : 3; if (cmd.op == 2) cmd.who = vd_int(); cmd.cpu = vd_int(); }
    sem_post(&go[t]); sem_wait(&done);
    static long z[NT * CPU_SETSIZE]; int k = 0; for (int i = 1; i <= NT; i++) for (int c = 0; c < n; c++) if (CPU_ISSET(c, &mask[i])) z[k++] = 10000 * i + c;
    vd_beg(); vd_ki("ret", cmd.ret); vd_kl("masks", z, k); vd_end();
}
