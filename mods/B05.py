from mods.savecommon import *
def check(c):
    exe = build(c); T = c.thorough; r = c.rng
    k = "CONSTANTS Kinds = {0,1,2,3,4}\n MaxCall = 16\n Modes = {1,2,3,4}\n Versions = {1,2}\n"
    sc = c.explore("SaveF", k, 2)
    c.conform("SaveF", exe, sc, F, CFG, k, "every fault and crash point of a save over every state")
    if c.viol: return
    g = []
    for _ in range(3000 if T else 150):
        ev = []
        for _ in range(20):
            ev.append({"op": "put", "v": r.randint(1, 5), "k": r.randint(1, 14), "m": r.choice([1, 2, 3, 4])} if r.random() < .7 else {"op": "put", "v": r.randint(1, 5), "k": 0, "m": 0})
        g.append(({"k": r.randint(0, 4), "n": r.choice([1, 3, 8, 40, 300]), "e": r.randint(0, 6), "seed": r.randint(1, 1 << 30)}, ev))
    c.conform("SaveF", exe, g, F, CFG, k, "seeded save histories")
    if c.viol: return
    g = [({"k": kind, "n": n, "e": r.choice([1, 3]), "seed": r.randint(1, 1 << 30)}, [{"op": "put", "v": r.randint(1, 5), "k": kk, "m": m} for kk in [0] + r.sample(range(1, 15), 4) for m in ((0,) if not kk else (1, 4))]) for kind in range(5) for n in (30000, 70000)]
    c.conform("SaveF", exe, g, F, CFG, k, "filters of many thousand entries")
