/* job (JK=0) and work (JK=1) managers of any size; one submitter */
#include "vd.h"
#include <pthread.h>
#include <semaphore.h>
#if JK == 0
#include "posix/job.h"
void job_manager_cleanup(job_manager *);
#else
#include "posix/work.h"
void work_manager_cleanup(work_manager *);
#endif
#define MAXJ 400000
static long njob, n_, made; static int nthr, over;
static unsigned char *fails; static long *ran[4096]; static long nran[4096]; static pthread_t tid[4096]; static char seen[4096]; static int who;
static int doit(void *ctx, void *job, int t) {
    long id = (long)(intptr_t)job;
    if (ctx != &njob || t < 0 || t >= 4096 || id < 1 || id > MAXJ) { who = 0; return 0; }
    if (!seen[t]) { seen[t] = 1; tid[t] = pthread_self(); ran[t] = malloc(sizeof(long) * 8); }
    if (!pthread_equal(tid[t], pthread_self())) { who = -1; return 0; }
    long n = nran[t]; if (n >= 8 && (n & (n - 1)) == 0) ran[t] = realloc(ran[t], sizeof(long) * 2 * n);
    ran[t][nran[t]++] = id;
    return fails[id] ? -1 - (int)(id & 1) * (1 << 20) : (int)(id & 3);
}
#if JK == 0
static job_manager M;
#else
static work_manager M;
#endif
static long waited(void) {
    over = 1;
#if JK == 0
    long r = job_manager_wait(&M); job_manager_cleanup(&M);
#else
    long r = work_manager_wait(&M); work_manager_cleanup(&M);
#endif
    return r;
}
static void vd_begin(void) {
    vd_int(); n_ = vd_int(); vd_int(); njob = 0; over = 0; who = 1; fails = calloc(1, MAXJ + 1); memset(seen, 0, sizeof seen); memset(nran, 0, sizeof nran);
#if JK == 0
    made = job_manager_init(&M, n_, doit, &njob);
#else
    made = work_manager_init(&M, n_, doit, &njob);
#endif
    if (made < 0) { fprintf(stderr, "cannot start\n"); exit(3); }
}
static void vd_op(const char *op) {
    if (vd_is(op, "put")) {
        long n = vd_int(), f = vd_int(), to = vd_int(); (void)to;
        vd_beg(); vd_key("rets"); putchar('[');
        for (long i = 0; i < n; i++) {
            njob++; if (njob > MAXJ) abort(); fails[njob] = f && njob % f == 0;
#if JK == 0
            job_manager_submit_job(&M, (void*)(intptr_t)njob);
#else
            printf("%s%d", i ? "," : "", work_manager_submit_work(&M, to, (void*)(intptr_t)njob));
#endif
        }
        putchar(']'); vd_first = 0; vd_end();
    } else {
        long r = waited(); vd_beg(); vd_ki("r", r); vd_ki("th", made); vd_ki("who", who);
        const char *s = ""; vd_key("o"); putchar('['); for (int t = 0; t < 4096; t++) for (long i = 0; i < nran[t]; i++, s = ",") printf("%s%ld", s, ran[t][i]);
        s = ""; putchar(']'); vd_first = 0; vd_key("t"); putchar('['); for (int t = 0; t < 4096; t++) for (long i = 0; i < nran[t]; i++, s = ",") printf("%s%d", s, t);
        putchar(']'); vd_first = 0; vd_end();
    }
}
static void vd_finish(void) { if (!over) waited(); for (int t = 0; t < 4096; t++) if (seen[t]) free(ran[t]); free(fails); }
