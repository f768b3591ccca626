/* Streams (process p, thread t) are real processes/threads driven over pipes by a coordinator.
 * Entropy is intercepted: every call returns fresh deterministic bytes; the process id is intercepted too. */
#include "vd.h"
#include <unistd.h>
#include <pthread.h>
#include <signal.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include "utils/arc4random.h"
#define NS 24
#define MAXREQ 16384
typedef struct { uint64_t ctr; long ncall, nbytes; int fail, alt; uint32_t val; uint8_t out[3][MAXREQ]; long n2call[3]; int ok[3]; } shm;
static shm *S;
static int cmd[NS][2], rep[NS][2];
static int logical = 1000;
static pthread_t T;
pid_t __wrap_getpid(void) { return logical; }
static uint64_t mix(uint64_t z) { z += 0x9E3779B97F4A7C15ULL; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
int __wrap_getentropy(void *b, size_t n) {
    S->ncall++; S->nbytes += n;
    if (S->fail) { errno = EIO; return -1; }
    for (size_t i = 0; i < n; i++) ((uint8_t*)b)[i] = mix(++S->ctr * 2 + S->alt) >> 24;
    return 0;
}
ssize_t __wrap_getrandom(void *b, size_t n, unsigned f) { (void)f; return __wrap_getentropy(b, n) == 0 ? (ssize_t)n : -1; }
typedef struct { char op; int a, b, c; uint32_t bound; } msg;
static void run(msg *m, uint8_t *out, int fill) {
    memset(out, fill, MAXREQ);
    if (m->op == 'b') arc4random_buf(out, m->a);
    else if (m->op == 'w') { uint32_t v = arc4random(); memcpy(out, &v, 4); }
    else { uint32_t v = arc4random_uniform(m->bound); memcpy(out, &v, 4); }
}
/* run the request in an exact copy of this process; k: 1 same entropy, 2 other entropy, 0 no entropy */
static void probe(msg *m, int k) {
    uint64_t c0 = S->ctr; S->ncall = S->nbytes = 0; S->fail = k == 0; S->alt = k == 2; S->ok[k] = 0; S->n2call[k] = 0;
    pid_t p = syscall(SYS_fork);
    if (p == 0) { if (k == 0) { signal(SIGABRT, SIG_DFL); close(2); } run(m, S->out[k], k == 1 ? 0xA5 : 0x5A); S->ok[k] = 1; syscall(SYS_exit_group, 0); }
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR);
    S->n2call[k] = S->ncall; S->ctr = c0; S->fail = S->alt = 0; S->ncall = S->nbytes = 0;
}
static void *loop(void *x) {
    int id = (int)(intptr_t)x; msg m;
    for (;;) {
        if (read(cmd[id][0], &m, sizeof m) != sizeof m) _exit(3);
        int r = 0;
        if (m.op == 'x') { r = write(rep[id][1], &r, sizeof r); syscall(SYS_exit_group, 0); }
        if (m.op == 'f') {
            pid_t p = fork();
            if (p == 0) { id = m.a; logical = m.b; continue; }
            r = p > 0 ? 0 : -1;
        } else if (m.op == 't') r = pthread_create(&T, 0, loop, (void*)(intptr_t)m.a);
        else if (m.op == 'p') { msg q = m; q.op = 'b'; probe(&q, 0); }
        else { probe(&m, 1); if (m.op == 'b') probe(&m, 2); run(&m, S->out[0], 0x5A); }
        if (write(rep[id][1], &r, sizeof r) != sizeof r) _exit(3);
    }
}
static int nproc, nstream, sid[NS][4], lpid[NS], dead[NS];
static int call(int id, msg m) {
    int r = -1; struct pollfd pf = { rep[id][0], POLLIN, 0 };
    if (write(cmd[id][1], &m, sizeof m) != sizeof m) exit(9);
    if (poll(&pf, 1, 30000) != 1 || read(rep[id][0], &r, sizeof r) != sizeof r) { fprintf(stderr, "no answer\n"); exit(9); }
    return r;
}
static int stream(int p, int t) {
    if (sid[p][t] < 0) { msg m = { .op = 't', .a = nstream }; sid[p][t] = nstream++; if (nstream > NS || call(sid[p][0], m)) exit(9); }
    return sid[p][t];
}
static void vd_begin(void) {
    struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
    signal(SIGCHLD, SIG_DFL);
    vd_int();
    S = mmap(0, sizeof *S, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    for (int i = 0; i < NS; i++) { if (pipe(cmd[i]) || pipe(rep[i])) exit(9); dead[i] = 0; for (int j = 0; j < 4; j++) sid[i][j] = -1; }
    fflush(stdout);
    nproc = 1; nstream = 1; sid[1][0] = 0; lpid[1] = logical = 1000;
    if (fork() == 0) loop(0);
}
static void vd_op(const char *op) {
    int p = vd_int(), t; msg m = { 0 };
    if (vd_is(op, "exit")) { m.op = 'x'; call(sid[p][0], m); dead[p] = 1; vd_r(0); return; }
    t = vd_int(); int id = stream(p, t);
    if (vd_is(op, "fork")) {
        int q = vd_int(); nproc++; lpid[nproc] = q ? lpid[q] : 1000 + nproc;
        m.op = 'f'; m.a = nstream; m.b = lpid[nproc]; sid[nproc][0] = nstream++; if (nstream > NS) exit(9);
        vd_r(call(id, m)); return;
    }
    if (vd_is(op, "unif")) { size_t n; long *b = vd_ints(&n); m.op = 'u'; m.bound = (uint32_t)b[0] << 16 | (uint32_t)b[1]; free(b); }
    else { m.a = vd_is(op, "word") ? 4 : vd_int(); m.op = vd_is(op, "word") ? 'w' : vd_is(op, "nofeed") ? 'p' : 'b'; }
    if (m.a > MAXREQ) exit(9);
    call(id, m);
    vd_beg();
    if (m.op == 'p') { vd_ki("r", S->ok[0]); vd_ki("ent", S->n2call[0]); }
    else {
        long n = m.op == 'b' ? m.a : 4, over = 0; for (long i = n; i < MAXREQ; i++) over |= S->out[0][i] != 0x5A;
        vd_ki("ent", S->ncall); vd_ki("entb", S->nbytes); vd_ki("over", over);
        vd_ki("pure", S->ok[1] && S->n2call[1] == S->ncall);         /* the copy behaved alike */
        vd_ki("filled", !memcmp(S->out[0], S->out[1], n));           /* result does not depend on the buffer's old contents */
        if (m.op == 'u') { uint32_t v; memcpy(&v, S->out[0], 4); long l[2] = { v >> 16, v & 65535 }; vd_kl("v", l, 2); }
        else { vd_kb("o", S->out[0], n); if (m.op == 'b') { vd_ki("fresh", !S->ok[2] || S->n2call[2] != S->ncall || n < 8 || memcmp(S->out[0], S->out[2], 8)); } }
    }
    vd_end();
}
static void vd_finish(void) {
    msg m = { .op = 'x' };
    for (int i = 1; i <= nproc; i++) if (!dead[i]) call(sid[i][0], m);
    while (waitpid(-1, 0, 0) > 0);
    for (int i = 0; i < NS; i++) { close(cmd[i][0]); close(cmd[i][1]); close(rep[i][0]); close(rep[i][1]); }
    munmap(S, sizeof *S);
}
