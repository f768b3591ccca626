from mods.cqcommon import *
CONSTS = "CONSTANTS Keys = {1}\n Vals = {1}\n Mods = {1}\n Sizes = {1}\n Fills = {50}\n OpNames = {}\n"
P = [";i1,1|i1,2;l1 s0", ";i1,1|x1;l1 s0", "i1,1;c1,2|c1,3;l1 s0", "i1,1;c1,2|l1 l1;", "i1,1;x1|x1;s0", "i1,1;i1,2|x1|l1;l1 s0",
     ";p1,1|p1,2;l1 s0", "i1,1;p1,2|x1;l1 s0", ";i1,1|i2,1;a0 s0", ";i1,1 i2,1|i3,1;a0 s0", "i1,1 i2,1;i3,1|l1 l2;a0 s0",
     "i1,1 i2,1;i3,1|x1;a0 s0", "i1,1 i2,1;f1|i3,1;a0 s0", "i1,1 i2,2;f0|c2,1;a0 s0", "i1,1 i2,2;a0|x1 i1,3;a0 s0",
     "i1,1 i2,1 i3,1;o0|l1 l3;s0", "i1,1;o0|o0;", "i1,1 i2,1;a0|f1;s0", "i1,1;i1,5 x1|i1,6;l1 s0", "i1,1 i2,1;c1,2 x1|p1,3|l1;a0 s0", "i1,1;s0|i2,1|x1;a0 s0",
     ";I1,1|i1,2;l1 s0", "i1,1;I2,1|l1 x1;s0", "i2,1;C1,1|l2 c2,2;s0", ";P1,1|i1,2|l1;a0 s0", "i1,1;C1,2|x1;l1 s0", "i1,1 i2,1;G3,1|x1 l2;a0 s0", "i1,1;G2,1|G3,1;a0 s0", "i1,1;G2,1|i3,1;a0 s0", ";I1,1 I1,1|I1,1;i1,1 s0"]
OPS = "iiiccppllxxxfasIPCG"

def rprog(r, thr, per):
    v = [0]
    def op():
        o = r.choice(OPS)
        k = r.randint(1, 5)
        if o in "icpICPG":
            v[0] += 1
            return "%s%d,%d" % (o, k, v[0])
        if o == "f": return "f%d" % r.randint(0, 1)
        if o in "as": return o + "0"
        return "%s%d" % (o, k)
    pre = " ".join("i%d,%d" % (k, 90 + k) for k in range(1, 6) if r.random() < .5)
    return pre + ";" + "|".join(" ".join(op() for _ in range(per())) for _ in range(thr)) + ";a0 s0"

def check(c):
    exe = c.build_vs("hash", ["cq_hash.c", "@src/hashtable/hashtab.c", "@src/hashtable/hashtab_iter.c", "@src/posix/cmutex.c", "@src/memmgr.c"])
    T = c.thorough
    J = [job(c, hm, fm, 0, p, 0, extra={"hm": hm}) for hm in (1, 16) for fm in (30, 90) for p in P]
    h = c.vs_run(exe, J, cap_hist=1500 if T else 25)
    c.check_histories("HashTab", h, CONSTS, label="all interleavings of small programs")
    if c.viol: return
    J = [job(c, c.rng.choice([1, 2, 16]), c.rng.choice([20, 50, 90]), 0, rprog(c.rng, 2, lambda: c.rng.randint(1, 3)), 0, mode=BOUND, bound=4 if T else 2,
             runs=500000 if T else 8000, secs=60 if T else 2, extra={"hm": 1}) for _ in range(120 if T else 40)]
    h = c.vs_run(exe, J, cap_hist=1000 if T else 20)
    c.check_histories("HashTab", h, CONSTS, label="preemption-bounded interleavings of random programs")
    if c.viol: return
    J = [job(c, c.rng.choice([1, 2, 16]), c.rng.choice([20, 50, 90]), 0, rprog(c.rng, c.rng.randint(2, 4), lambda: c.rng.randint(2, 4)), 0, mode=RANDOM,
             runs=20000 if T else 400, secs=20 if T else 2, hist=300, extra={"hm": 1}) for _ in range(150 if T else 30)]
    h = c.vs_run(exe, J, cap_hist=300 if T else 14)
    c.check_histories("HashTab", h, CONSTS, label="random schedules of random programs")
