from mods import longt
from mods.bloomcommon import *
def check(c):
    exe = build(c); T = c.thorough
    k = CONS % ("0,1,2,3", "0,1,2", "1,4", "0,3", 2)
    c.conform("BloomF", exe, c.explore("BloomF", k, 6), F, CFG, k, "transition cover")
    if c.viol: return
    k2 = CONS % ("0,1,2", "0,1,2", "1,2", "0", 4)
    sc = c.explore("BloomF", k2, 5 if T else 4, tree=True)
    if len(sc) > (60000 if T else 9000): sc = c.rng.sample(sc, 60000 if T else 9000)
    c.conform("BloomF", exe, sc, F, CFG, k2, "every history of given length")
    if c.viol: return
    c.conform("BloomF", exe, rand(c.rng, 500 if T else 60, 300, [0, 1, 1, 2, 2], False), F, CFG, k, "seeded add/probe histories")
    if c.viol: return
    # many additions of one element (a counter must not wrap), probed after every step
    sc = []
    for typ in (0, 1, 2):
        for m in (130, 260, 520) + ((70000,) if T else ()):
            ev = [e("add", 1)]
            for i in range(m):
                ev.append(e("add", 0))
                if m < 1000 or i % 97 == 0 or 65500 < i < 65600: ev += [e("find", 0), e("find", 1)]
            sc.append(({"typ": typ, "n": 8, "e": 1, "seed": m + typ}, ev))
    c.conform("BloomF", exe, sc, F, CFG, k, "one element added many times")
    if c.viol: return
    # growth of the scalable filter through many levels, every element probed at the end
    g = []
    for n in ((1, 2, 3, 7) if not T else (1, 2, 3, 4, 7, 15, 40)):
        for er in (0, 1, 3, 6):
            m = 1500 if not T else 6000
            ev = [e("add", x) for x in range(m)] + [e("find", x) for x in range(m)]
            g.append(({"typ": 2, "n": n, "e": er, "seed": n * 100 + er}, ev))
    c.conform("BloomF", exe, g, F, CFG, k, "growth of the scalable filter")
    if c.viol: return
    longt.check(c, 2, ["count", "std", "scale"])
