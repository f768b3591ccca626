#include <errno.h>
#include "posix/work.h"
int work_manager_init(work_manager *w, int n, workfunc_t f, void *c) { return -1; }
int work_manager_submit_work(work_manager *w, int n, void *j) { return -1; }
int work_manager_wait(work_manager *w) { return -1; }
void work_manager_cleanup(work_manager *w) { }
