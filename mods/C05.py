from mods import longq
from mods.cqcommon import *

SMALL = [";e1|d;d", ";e1 e2|d d;e3 d", ";e1|e2|d d;", ";e1|e2|d|d;", ";e1 e2 e3|d d d;", ";e1 e2|e3|d d d;", ";d|d|e1 e2;", ";e1 e2|e3 e4|d d;d d",
         ";d|e1|k1;", ";e1|d k1|k1;d", "e9;e1|d|k1;d", ";d|e1 e2|k1;d", ";d|d|e1 k1 k2 e2;", ";e1|e2|d;d", ";d d|e1;", "e9;e1|d|d;"]
BIG = [";e1 e2|e3 e4|d d|d d;", ";e1 e2 e3|e4|d d|d d;", ";e1|e2|e3|d d d;", ";e1 d|e2 d|e3 d;", ";d e1|e2 e3|d d;", ";e1 e2|d d|e3|k1 k2 k1;d", ";d d|e1 e2 e3 e4|d d|k1 k3 k1;", ";e1 e2|e3 e4|e5|d d d|d d;"]

def alg(c):
    def A(cap, p, sigs, intr="FALSE", late="FALSE"):
        pr = "<<" + ", ".join("<<" + ", ".join('"%s"' % o for o in th.split()) + ">>" for th in p.split("|")) + ">>"
        return dict(Cap=cap, Prog=pr, Sigs=sigs, TakeIntr=intr, ReadLate=late)
    good = [A(1, "E E|E|D D|D", 1), A(2, "E E E|D|D D", 1), A(1, "D|D E|E", 2), A(2, "E E E|D", 0)]
    if c.thorough:
        good += [A(2, "E E E|E|D D|D D", 1), A(1, "E D|E D|E D", 2), A(3, "E E E E|D D|D E D", 1), A(1, "D D|E|E|D", 2)]
    algorithm(c, "AlgSyncq", ["Linearizable", "Counts", "NoStuck"], good, [A(1, "E E|D D|D", 1, "TRUE"), A(2, "E E E|D|D D", 0, late="TRUE")])

def check(c):
    alg(c)
    exe = c.build_vs("syncq", ["cq_syncq.c"])
    T = c.thorough
    J = [job(c, cap, 0, off, p, 0) for cap in (1, 2, 3) for off in range(cap + 1) for p in SMALL]
    h = c.vs_run(exe, J, cap_hist=1500 if T else 25)
    c.check_histories("ConcQueue", h, label="all interleavings of small programs")
    if c.viol: return
    J = [job(c, cap, 0, off, p, 0, mode=BOUND, bound=4 if T else 2, runs=1000000 if T else 8000, secs=60 if T else 2) for cap in (1, 2, 3, 4) for off in (0, cap - 1) for p in BIG]
    h = c.vs_run(exe, J, cap_hist=1500 if T else 30)
    c.check_histories("ConcQueue", h, label="preemption-bounded interleavings of larger programs")
    if c.viol: return
    J = []
    for _ in range(200 if T else 30):
        nt, k, th = c.rng.randint(2, 5), 0, []
        for _ in range(nt):
            o = []
            for _ in range(c.rng.randint(2, 5)):
                if c.rng.random() < 0.55:
                    k += 1
                    o.append("e%d" % k)
                else: o.append("d")
            if c.rng.random() < .3: o.insert(c.rng.randint(0, len(o)), "k%d" % c.rng.randint(1, nt))
            th.append(" ".join(o))
        J.append(job(c, c.rng.randint(1, 4), 0, c.rng.randint(0, 5), ";" + "|".join(th) + ";", 0, mode=RANDOM, runs=20000 if T else 600, secs=20 if T else 2, hist=400))
    h = c.vs_run(exe, J, cap_hist=400 if T else 30)
    c.check_histories("ConcQueue", h, label="random schedules of random programs")
    if c.viol: return
    longq.check(c, longq.SYNCQ)
