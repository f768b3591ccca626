from mods import longq
from mods.cqcommon import *
from functools import partial

def p2(n):
    k = 1
    while k < n: k *= 2
    return k

def progs(c, P, sizes, slack=2, **kw):
    J = []
    for sz in sizes:
        for off in ((0, 1, p2(sz)) if p2(sz) > 1 else (0, 1)):
            for p in P:
                J.append(job(c, p2(sz), sz, off, p, slack, **kw))
    return J

def rnd(c, n, ops, sizes, post):
    """random programs, random/PCT schedules"""
    J = []
    for _ in range(n):
        sz = c.rng.choice(sizes)
        nt, k, th = c.rng.randint(2, 4), 0, []
        for _ in range(nt):
            o, w = [], [c.rng.choice(ops) for _ in range(2)] + list(ops)
            for _ in range(c.rng.randint(2, 4)):
                x = c.rng.choice(w)
                if x in "eE":
                    k += 1
                    x += str(k)
                o.append(x)
            th.append(" ".join(o))
        J.append(job(c, p2(sz), sz, c.rng.randint(0, 5), ";" + "|".join(th) + ";" + post, 2, mode=RANDOM,
                     runs=30000 if c.thorough else 800, secs=20 if c.thorough else 2, hist=400))
    return J

SMALL = [";e1|e2|d;q d d d q", ";e1 d|e2 d;q d d d q", "e9;e1|d|d;q d d d q", "e9;d e1|d e2;q d d d q",
         ";e1 e2|d d;q d d d q", ";e1 e2|e3 e4;q d d d d d q", "e7 e8;d d|d d;q d q", "c e7 z q;e1|e2;q d d d z q e4 q d"]
BIG = [";e1 e2|e3|d d;q d d d d q", "e9;e1|e2|d|d;q d d d d q", ";e1 d|d e2|e3 d;q d d d d q", "e8 e9;d d|e1 e2|d;q d d d d q",
       ";e1 e2 e3|d d d;d d d d", "e9;e1 d|e2 d|d e3;q d d d d q"]

INV = ["Linearizable", "Exclusive", "NoStuck"]

def prog(t):
    return "<<" + ", ".join("<<" + ", ".join('"%s"' % o for o in th.split()) + ">>" for th in t.split("|")) + ">>"

def amod(cap, off, p, early="FALSE"):
    return dict(Cap=cap, Off=off, Prog=prog(p), Early=early)

def alg(c):
    good = [amod(2, 0, "e e|e d|d d"), amod(1, 1, "e d|e|d d"), amod(2, 1, "e|e|d|d")]
    if c.thorough:
        good += [amod(2, 3, "e e|e d|d d d"), amod(4, 5, "e e|e e|d d d"), amod(2, 0, "e d|e d|e d"), amod(1, 0, "e e|d d|e d")]
    algorithm(c, "AlgMpmc", INV, good, [amod(2, 0, "e e|d d", "TRUE")])

def check(c):
    alg(c)
    exe = c.build_vs("mpmc", ["cq_mpmc.c"])
    small = progs(c, SMALL, (1, 2, 3, 4) if c.thorough else (1, 2, 3))
    h = c.vs_run(exe, small, cap_hist=2000 if c.thorough else 30)
    c.check_histories("ConcQueue", h, label="all interleavings of small programs")
    if c.viol: return
    big = progs(c, BIG, (1, 2, 4), mode=BOUND, bound=4 if c.thorough else 2, runs=1000000 if c.thorough else 12000, secs=90 if c.thorough else 2)
    h = c.vs_run(exe, big, cap_hist=1500 if c.thorough else 40)
    c.check_histories("ConcQueue", h, label="preemption-bounded interleavings of larger programs")
    if c.viol: return
    h = c.vs_run(exe, rnd(c, 200 if c.thorough else 30, "ed", [1, 2, 2, 3, 4], "q " + "d " * 13 + "q"), cap_hist=400 if c.thorough else 40)
    c.check_histories("ConcQueue", h, label="random schedules of random programs")
    c.assumptions.append("sequentially consistent interleavings plus a vector-clock race detector honouring the source memory orders")
    if c.viol: return
    longq.check(c, longq.MPMC)
