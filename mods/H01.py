from mods import longt
from mods.hashcommon import *
def check(c):
    exe = c.build("hashtab", SRC)
    T = c.thorough
    k = consts([0, 1, 2], [1, 2], [1, 2, 1024], [1], [10, 80], MAP)
    sc = c.explore("HashTab", k, 5)
    c.conform("HashTab", exe, fin(sc), F, CFG, k, "transition cover of the map")
    if c.viol: return
    k = consts([0, 1] if not T else [0, 1, 2], [1], [1, 1024], [1], [10], MAP)
    sc = c.explore("HashTab", k, 4, tree=True)
    if len(sc) > (100000 if T else 12000): sc = c.rng.sample(sc, 100000 if T else 12000)
    c.conform("HashTab", exe, fin(sc), F, CFG, k, "every operation sequence")
    if c.viol: return
    k = consts([0, 1, 2, 3], [1], [1, 2, 1024], [1, 2], [10, 50, 80], ["ins", "rem", "look", "apply"] + STARVED)
    sc = c.explore("HashTab", k, 6)
    c.conform("HashTab", exe, fin(sc), F, CFG, k, "transition cover with an exhausted allocator")
    if c.viol: return
    c.conform("HashTab", exe, rand(c.rng, 600 if T else 50, 250, False), F, CFG, k, "seeded random histories (growing tables)")
    if c.viol: return
    longt.check(c, 0, ["hash"])
