from mods import longt
from mods.hashcommon import *
def check(c):
    exe = c.build("hashtab", SRC)
    T = c.thorough
    k = consts([0, 1, 2, 3] + ([4] if T else []), [1], [1, 2, 1024], [1], [10, 80], ["ins", "rem", "apply", "remif"] + ITERS + ["iterf"])
    sc = c.explore("HashTab", k, 7)
    c.conform("HashTab", exe, fin(sc), F, CFG, k, "iterators over every reachable small table")
    if c.viol: return
    c.conform("HashTab", exe, rand(c.rng, 600 if T else 50, 250, True), F, CFG, k, "seeded random histories (growing tables)")
    if c.viol: return
    longt.check(c, 0, ["hash"])
