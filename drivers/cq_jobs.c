/* job manager (KIND 0) and work manager (KIND 1); CAP is the number of workers */
#include "cq.h"
#include "posix/job.h"
#include "posix/work.h"
void job_manager_cleanup(job_manager *);
void work_manager_cleanup(work_manager *);
static job_manager *JM; static work_manager *WM;
int sys_cpu_getavail(void) { return CAP; }
int sys_cpu_set_my_thread_affinity(int cpu) { return 0; }
void error(int d, int e, const char *f, ...) { }
static int fn(void *ctx, void *job, int nr) {
    long j = (long)job; int f = j >= 100 ? -(int)(j % 3) - 1 : (int)(j % 3);
    vs_inv("{\"k\":\"i\",\"t\":%d,\"op\":\"run\",\"a\":[%d,%ld]}", vs_self(), nr, ctx == (void*)&JM ? j : -1);
    vs_yield();
    vs_ret("{\"k\":\"r\",\"t\":%d,\"r\":%d,\"v\":[]}", vs_self(), f < 0);
    return f;
}
static void q_new(void) {
    vs_strict_order = 1;
    JM = malloc(sizeof *JM); WM = malloc(sizeof *WM);
    int n = CAP > 1 ? CAP : 0;      /* 0: one per cpu */
    if (CAP == 1) n = 1;
    int r = KIND & 1 ? work_manager_init(WM, KIND & 2 ? 0 : n, fn, &JM) : job_manager_init(JM, KIND & 2 ? 0 : n, fn, &JM);
    if (r != CAP) vs_note_quiet("{\"k\":\"b\",\"op\":\"init\"}");
}
static void q_del(void) { if (KIND & 1) work_manager_cleanup(WM); else job_manager_cleanup(JM); }
static long q_op(char op, const long *a, int n, long *v, int *nv) {
    if (op == 's') {
        if (KIND & 1) return work_manager_submit_work(WM, n > 1 ? (int)a[1] - 1 : -1, (void *)a[0]);
        job_manager_submit_job(JM, (void *)a[0]);
        return 0;
    }
    return KIND & 1 ? work_manager_wait(WM) : job_manager_wait(JM);
}
static const char *q_name(char op) { return op == 's' ? "submit" : "wait"; }
