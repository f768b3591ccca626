from mods import longt
from mods.alloccommon import *

def rand(r, n, ln):
    out = []
    for _ in range(n):
        c = {"kind": 4, "blk": r.choice([0, 1, 7, 8, 13, 64, 100, 1000, 4096]), "max": 0, "unit": 0, "msz": 0, "mis": 0}
        ev = [{"op": "init"}]
        big = r.random() < .5
        for i in range(ln):
            z = r.random()
            if z < .03: ev.append({"op": "huge", "id": i, "n": r.randint(0, 9)})
            elif z < .05: ev.append({"op": "fail", "k": 1})
            else: ev.append({"op": "alloc", "id": i, "n": r.choice([0, 1, 7, 8, 9, r.randint(0, 40), r.randint(0, 200), c["blk"], c["blk"] + 1, max(0, c["blk"] - 1)] + ([r.randint(0, 5000)] if big else []))})
        out.append((c, ev))
    return fin(out)

def check(c):
    exe = build(c, "alloc")
    T = c.thorough
    k = "CONSTANTS Kinds = {4}\n Blks = {8,24,29}\n Maxs = {0}\n Units = {0}\n Ids = {0,1,2,3,4%s}\n Lens = {0,1,8,9,30}\n" % (",5" if T else "")
    sc = c.explore("Alloc", k, 6 if not T else 7, tree=True)
    if len(sc) > 60000: sc = c.rng.sample(sc, 60000)
    c.conform("Alloc", exe, fin(sc), F, CFG, k, "every short allocation sequence")
    if c.viol: return
    c.conform("Alloc", exe, rand(c.rng, 600 if T else 100, 120), F, CFG, k, "seeded random histories")
    if c.viol: return
    longt.check(c, 3, ["arena"])
