#include <errno.h>
#include "posix/job.h"
int job_manager_init(job_manager *w, int n, jobfunc_t f, void *c) { return -1; }
void job_manager_submit_job(job_manager *w, void *j) { }
int job_manager_wait(job_manager *w) { return -1; }
void job_manager_cleanup(job_manager *w) { }
