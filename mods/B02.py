from mods import longt
from mods.bloomcommon import *
def check(c):
    exe = build(c); T = c.thorough
    k = CONS % ("0,1,2,3", "0", "1,2,4", "0,1,3", 2)
    c.conform("BloomF", exe, c.explore("BloomF", k, 7), F, CFG, k, "transition cover")
    if c.viol: return
    k2 = CONS % ("0,1,2", "0", "1,2", "0,3", 4)
    sc = c.explore("BloomF", k2, 6 if T else 5, tree=True)
    if len(sc) > (60000 if T else 9000): sc = c.rng.sample(sc, 60000 if T else 9000)
    c.conform("BloomF", exe, sc, F, CFG, k2, "every history of given length")
    if c.viol: return
    c.conform("BloomF", exe, rand(c.rng, 500 if T else 80, 300, [0], True), F, CFG, k, "seeded add/remove histories")
    if c.viol: return
    # many duplicates: counters at and beyond their limit, shared slots
    g = []
    for n in (1, 2, 5):
        for er in (0, 2):
            for m in (254, 255, 256, 257, 300, 511, 512, 513, 700):
                ev = [e("add", 7)] + [e("add", 3)] * m + [e("find", 3), e("find", 7)] + [e("rem", 3)] * (m - 1) + [e("find", 3), e("find", 7), e("rem", 3), e("find", 7), e("rem", 7)]
                g.append(({"typ": 0, "n": n, "e": er, "seed": n * 1000 + m}, ev))
    if not T: g = c.rng.sample(g, 24)
    c.conform("BloomF", exe, g, F, CFG, k, "hundreds of duplicates")
    if c.viol: return
    longt.check(c, 2, ["count"])
