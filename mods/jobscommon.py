from mods.cqcommon import *

def alg(c, kind):
    def A(n, cap, p, quit="FALSE", late="FALSE"):
        pr = "<<" + ", ".join("<<" + ", ".join("[j |-> %s, w |-> %s]" % (o.split(",")[0], (o + ",-1").split(",")[1]) for o in th.split()) + ">>" for th in p.split("|")) + ">>"
        return dict(N=n, Cap=cap, Shared="TRUE" if kind == 0 else "FALSE", Prog=pr, Quit=quit, LateTurn=late)
    INV = ["OnceAtMost", "Drained", "InOrder", "Routed", "Balanced", "NoStuck"]
    if kind == 0:
        good = [A(2, 1, "1 102|3"), A(2, 2, "1 2|103 4"), A(1, 1, "1 102|3 4"), A(3, 2, "1 102 3")]
        if c.thorough: good += [A(3, 2, "1 102 3|4 105"), A(2, 3, "1 2|103 4|5 6"), A(3, 1, "1 2|103|4")]
        bad = [A(1, 2, "101 2", quit="TRUE")]
    else:
        good = [A(2, 1, "1 102,0|3"), A(2, 2, "1 2,1|103,1 4"), A(1, 1, "1 102|3 4,0"), A(3, 2, "1 102 3")]
        if c.thorough: good += [A(3, 2, "1 102 3|4 105,1"), A(2, 3, "1 2,1|103,1 4|5 6,0"), A(3, 1, "1 2,0|103,0|4")]
        bad = [A(2, 2, "101,0 2,0", quit="TRUE"), A(2, 3, "1|2|3|4", late="TRUE")]
    algorithm(c, "AlgJobs", INV, good, bad)

def run(c, kind):
    alg(c, kind)
    exe = c.build_vs("jobs", ["cq_jobs.c", "@src/posix/job.c" if kind == 0 else "@src/posix/work.c", "cq_jobstub%d.c" % kind])
    T = c.thorough
    X = {"kind": kind}
    if kind == 0:
        small = ["s1;;w", "s1 s100;;w", ";s1|s2;w", "s1 s2;;w", ";;w", ";s1|k1;w", "s1;k1 s2|k1;w"]
        big = ["s1 s100 s2;;w", "s1;s2|s101;w", ";s1 s2|s103 s104;w", ";s1 k1 s2|s103 k2;w", "s1 s2 s3 s104 s5;;w", "s100 s101;s1|s2 s3;w"]
    else:
        small = ["s1,0;;w", "s1 s2;;w", "s1,1 s102,1;;w", "s1,2 s2,1;;w", ";s1|s2;w", ";;w", "s1,9 s2;;w", ";s1|k1;w", "s1,1;k1 s2,1|k1;w"]
        big = ["s1 s102 s3;;w", "s1,1 s2,1 s103,1;;w", ";s1 s2|s103 s4;w", ";s1 k1 s2|s103,1 k2 k1;w", "s1,2 s2 s103,2 s4 s5,2 s6;;w", ";s1,1 s2|s3,1 s4|s105;w", "s1 s2 s3 s4 s5;;w"]
    J = []
    for n in (1, 2):
        for p in small:
            for k in (kind, kind + 2):
                J.append(job(c, n, k, 0, p, 0, extra=X))
    h = c.vs_run(exe, J, cap_hist=1500 if T else 60)
    c.check_histories("Jobs", h, label="all interleavings of small programs")
    if c.viol: return
    J = [job(c, n, kind, 0, p, 0, extra=X, mode=BOUND, bound=3 if T else 2, runs=1000000 if T else 6000, secs=60 if T else 3) for n in (1, 2, 3) for p in big]
    h = c.vs_run(exe, J, cap_hist=1500 if T else 60)
    c.check_histories("Jobs", h, label="preemption-bounded interleavings of larger programs")
    if c.viol: return
    J = []
    for _ in range(120 if T else 24):
        n, k, th = c.rng.randint(1, 4), 0, []
        for _ in range(c.rng.randint(1, 3)):
            o = []
            for _ in range(c.rng.randint(1, 5)):
                k += 1
                o.append("s%d" % (k + (100 if c.rng.random() < .4 else 0)) + (",%d" % c.rng.randint(0, n + 1) if kind and c.rng.random() < .5 else ""))
            th.append(" ".join(o))
        J.append(job(c, n, kind, 0, ";" + "|".join(th) + ";w", 0, extra=X, mode=RANDOM, runs=20000 if T else 500, secs=20 if T else 3, hist=300))
    h = c.vs_run(exe, J, cap_hist=300 if T else (30 if kind == 0 else 14))
    c.check_histories("Jobs", h, label="random schedules of random programs")
