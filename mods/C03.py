from mods import longq
from mods.cqcommon import *
from mods.C02 import progs, rnd, amod, INV

SMALL = [";E1|D;q d q", ";E1|E2|D;q d d q", ";E1 E2|D D;q d q", "e9;E1|D;q d d q", "e9;E1|D D;q d q", ";E1|E2|D D;d q", ";D|D|e1 e2;q d q",
         ";D|D|E1;q", ";E1 E2|d;d d", "e8 e9;E1|d;d d d q", ";D d|E1;d q", ";E1|e2|D;d d q", "e9;E1 E2|D D;d d q", "e9;E1|E2|d;q d d d d"]
BIG = [";E1 E2|E3|D D D;q d q", ";E1|E2|D|D;q d q", "e9;E1|E2|D D|d;d d d q", ";D D|D|E1 E2 E3;q d q", ";E1 D|E2 D|E3 D;q d q", ";D E1|E2 D|e3;d d d q",
       ";E1 E2 E3|D D|D;q d q"]

def alg(c):
    good = [amod(2, 0, "E E|E D|D D"), amod(1, 1, "E D|E|D D"), amod(2, 1, "E|e|D|D d"), amod(1, 0, "D|D D|E"), amod(2, 0, "E E|e E|D")]
    if c.thorough:
        good += [amod(2, 3, "E E E|E D|D D D"), amod(2, 0, "E D|E D|E D"), amod(2, 1, "E e|D d|E D"), amod(1, 0, "E E|D d|e D")]
    algorithm(c, "AlgMpmc", INV, good, [amod(2, 0, "E E|D D", "TRUE")])

def check(c):
    alg(c)
    exe = c.build_vs("mpmc", ["cq_mpmc.c"])
    h = c.vs_run(exe, progs(c, SMALL, (1, 2, 4) if c.thorough else (1, 2)), cap_hist=2000 if c.thorough else 30)
    c.check_histories("ConcQueue", h, label="all interleavings of small programs")
    if c.viol: return
    h = c.vs_run(exe, progs(c, BIG, (1, 2, 4), mode=BOUND, bound=4 if c.thorough else 2, runs=1000000 if c.thorough else 10000, secs=90 if c.thorough else 2), cap_hist=1500 if c.thorough else 40)
    c.check_histories("ConcQueue", h, label="preemption-bounded interleavings of larger programs")
    if c.viol: return
    h = c.vs_run(exe, rnd(c, 200 if c.thorough else 30, "EDed", [1, 2, 2, 4], "d " * 16), cap_hist=400 if c.thorough else 40)
    c.check_histories("ConcQueue", h, label="random schedules of random programs")
    c.assumptions.append("sequentially consistent interleavings plus a vector-clock race detector honouring the source memory orders")
    if c.viol: return
    longq.check(c, longq.MPMC)
