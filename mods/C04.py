from mods import longq
from mods.cqcommon import *

def slack(kind):
    return 3 if kind & 3 == 3 else 1

SPSC = [";B1,2 e3|X2 d;q x7 q", "b7,8;b1,2,3|x2 x2;q x7 q", ";e1 b2,3,4|x3 d;q x7 q", "b8,9;B1,2 b3,4|X2 x3;q x7 q", ";b1,2,3,4,5 b6,7|x5 x1;q x8 x8 q"]
MP = [";B1,2|b3,4|X2;q x7 q", ";e1|B2,3|x2;q x7 q", "b8,9;b1,2|e3|x2 d;q x7 q", ";b1,2,3|b4,5,6|x4;q x8 q"]
MC = ["b7,8,9;X2|x2|e1;q x7 q", "b8,9;d|x3|b1,2;q x7 q", "b7,8,9;x2|x2|b1,2 e3;q x7 q"]
MPMC = [";B1,2 d|e3 x2;q x7 q", "b8,9;B1,2|b3,4|x2|d;q x7 q", "b7,8;x2|X2|b1,2|e3;q x7 q", "b9;e1 d|b2,3 X2;q x7 q"]
BIG = {3: [";b1,2 e3 B4,5 b6,7,8|x2 d X2 x4;q x8 x8 q"], 2: [";B1,2 e3|b4,5 e6|X2 d x3;q x8 x8 q"],
       1: ["b7,8,9;d x2|X2 d|b1,2 e3 b4,5;q x8 x8 q"], 0: ["b9;B1,2 d|e3 x2|b4,5 X2;q x8 x8 q", ";e1|e2|d|d;q x7 q", ";B1,2 X2|B3,4 X2|x1;q x7 q"]}

def progs(c, kinds, caps, P, **kw):
    J = []
    for kind in kinds:
        for cap in caps:
            for off in (0, 1, cap - 1, cap):
                for p in P:
                    J.append(job(c, cap, kind, off, p, slack(kind), **kw))
    return J

def rnd(c, n):
    J = []
    for _ in range(n):
        cap, kind = c.rng.choice([1, 3, 3, 7]), c.rng.randint(0, 15)
        np_, nc = 1 if kind & 1 else c.rng.randint(1, 3), 1 if kind & 2 else c.rng.randint(1, 2)
        k, th = 0, []
        for _ in range(np_):
            o = []
            for _ in range(c.rng.randint(2, 4) if np_ > 1 else 5):
                m = c.rng.randint(1, min(cap + 1, 6))
                o.append(c.rng.choice("eBb" if m == 1 else "Bb") + ",".join(str(k + x + 1) for x in range(m)))
                k += m
            th.append(" ".join(o))
        for _ in range(nc):
            th.append(" ".join(c.rng.choice(["d", "X%d" % c.rng.randint(1, cap), "x%d" % c.rng.randint(1, cap + 1)]) for _ in range(c.rng.randint(2, 4) if nc > 1 else 5)))
        J.append(job(c, cap, kind, c.rng.randint(0, 9), ";" + "|".join(th) + ";q x9 x9 q", slack(kind), mode=RANDOM,
                     runs=30000 if c.thorough else 800, secs=20 if c.thorough else 2, hist=400))
    return J

def alg(c):
    def A(size, p, sp, sc, bad="FALSE"):
        N = {"b": "enqb", "B": "enqv", "x": "deqb", "X": "deqv"}
        pr = "<<" + ", ".join("<<" + ", ".join('[op |-> "%s", n |-> %s]' % (N[o[0]], o[1:]) for o in th.split()) + ">>" for th in p.split("|")) + ">>"
        return dict(Size=size, Prog=pr, SP=sp, SC=sc, NoOrder=bad)
    T, F = "TRUE", "FALSE"
    good = [A(4, "B2|b1|X2 x1", F, F), A(4, "B2 b2|X2|x1", T, F), A(2, "B2|b1|x1 X1", F, T), A(4, "b2 B3 b1|x2 X3", T, T), A(4, "b2 x1|B2|X2", F, F)]
    if c.thorough:
        good += [A(4, "B2 b1|b2|X2 x1", F, F), A(4, "b3|B2|X2|x2", F, F), A(4, "B2 x1|b2 X2|X1", F, F), A(8, "b3 B5 b2|x4 X3 x2", T, T), A(2, "b1|b1|x1|x1", F, F)]
    algorithm(c, "AlgRing", ["Linearizable", "Order", "NoStuck"], good, [A(4, "B2|b1|X2 x1", F, F, T), A(4, "b2|B2|X2", T, T)])

def check(c):
    alg(c)
    exe = c.build_vs("ring", ["cq_ring.c"])
    T = c.thorough
    J = progs(c, (3, 15), (1, 3, 7), SPSC) + progs(c, (2, 14), (1, 3), MP) + progs(c, (1, 13), (1, 3), MC) + progs(c, (0, 12), (3,), MPMC[:1] + MPMC[3:])
    J += [job(c, 3, (3 << 8) + 1, 0, ";B1,2|x2|d;q x7 q", 1), job(c, 7, (5 << 8) + 0, 3, ";B1,2|x2;q x7 q", 1)]
    h = c.vs_run(exe, J, cap_hist=1500 if T else 12)
    c.check_histories("ConcQueue", h, label="all interleavings of small programs")
    if c.viol: return
    J = [j for k in BIG for j in progs(c, (k, k + 12) if T else (k,), (3, 7) if T else (3,), BIG[k] + (MPMC if k == 0 else []), mode=BOUND, bound=4 if T else 2, runs=1000000 if T else 8000, secs=60 if T else 2)]
    h = c.vs_run(exe, J, cap_hist=1500 if T else 30)
    c.check_histories("ConcQueue", h, label="preemption-bounded interleavings of larger programs")
    if c.viol: return
    h = c.vs_run(exe, rnd(c, 300 if T else 40), cap_hist=400 if T else 30)
    c.check_histories("ConcQueue", h, label="random schedules of random programs")
    c.assumptions.append("sequentially consistent interleavings plus a vector-clock race detector honouring the source memory orders")
    if c.viol: return
    longq.check(c, longq.RING)
