from mods import longq
from mods.cqcommon import *

def progs(c):
    J = []
    big = c.thorough
    P = ["q;e1 e2 e3|d d d;d d d q", ";e1 e2|d d d;q d d q", ";e1|d;d q", "e9;e1 e2|d d;q d d d",
         "e8 e9;e1 e2|d d;d q d d d", ";e1 e2 e3 e4|d d d;q d d d d q", "e1 z;e1 e2|d d d;d d q", ";e1 e2|d q d q;q d d",
         ";e1 q e2 q|d d;q d d"]
    if big:
        P += [";e1 e2 e3 e4 e5|d d d d d;q d d d d d", "e7 e8 e9;e1 e2 e3 e4|d d d d;q d d d d d", ";e1 e2 e3|d d d d d d;q d d d"]
    for cap in (1, 2, 3, 4) if big else (1, 2, 3):
        for kind in (0, 1):
            for off in range(cap + 1):
                for p in P:
                    J.append(job(c, cap, kind, off, p, 0))
    return J

def rnd(c, n):
    J = []
    for _ in range(n):
        cap = c.rng.choice([1, 2, 3, 4, 4])
        ne, nd = c.rng.randint(4, 9), c.rng.randint(4, 9)
        pr = ";" + " ".join("e%d" % (k + 1) for k in range(ne)) + "|" + " ".join(["d"] * nd) + ";q " + "d " * (ne + 1) + "q"
        J.append(job(c, cap, c.rng.randint(0, 1), c.rng.randint(0, 5), pr, 0, mode=RANDOM, runs=20000 if c.thorough else 600, secs=20 if c.thorough else 2, hist=400))
    return J

def alg(c):
    A = lambda cap, e, d, early="FALSE": dict(Cap=cap, NEnq=e, NDeq=d, Early=early)
    algorithm(c, "AlgSpsc", ["Linearizable", "InRange", "NoStuck"],
              [A(1, 3, 4), A(2, 4, 4)] + ([A(3, 6, 6), A(2, 7, 7)] if c.thorough else []), [A(2, 3, 3, "TRUE")])

def check(c):
    alg(c)
    exe = c.build_vs("spsc", ["cq_spsc.c"])
    h = c.vs_run(exe, progs(c), cap_hist=2000 if c.thorough else 25)
    c.check_histories("ConcQueue", h, label="all interleavings of small programs")
    if not c.viol:
        h = c.vs_run(exe, rnd(c, 100 if c.thorough else 24), cap_hist=400 if c.thorough else 40)
        c.check_histories("ConcQueue", h, label="random schedules of longer programs")
    c.assumptions.append("sequentially consistent interleavings plus a vector-clock race detector honouring the source memory orders")
    if c.viol: return
    longq.check(c, longq.SPSC)
