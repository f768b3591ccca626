from mods import longt
from mods.alloccommon import *

def rand(r, n, ln):
    out = []
    for _ in range(n):
        kind = r.randint(0, 3)
        c = {"kind": kind, "blk": r.choice([0, 1, 7, 8, 15, 16, 17, 24, 31, 33, 64, 100]), "max": 0, "unit": 0, "msz": 0, "mis": r.randint(0, 15)}
        if kind < 2:
            c["max"] = r.choice([0, 0, 1, 2, 3, 5, 17, 64]); c["unit"] = r.choice([0, 1, 2, 3, 7, 50])
        else:
            c["msz"] = r.choice([r.randint(1, 120), r.randint(100, 400), r.randint(300, 3000)])
        ev, live, nid, grow = [{"op": "init"}], [], 0, .7
        for _ in range(ln):
            if r.random() < .05: grow = r.choice([.2, .5, .8, .95])
            if r.random() < .02 and kind < 2: ev.append({"op": "fail", "k": 1}); continue
            if r.random() < grow:
                ev.append({"op": "alloc", "id": nid, "n": 0}); live.append(nid); nid += 1
            elif live: ev.append({"op": "free", "id": live.pop(r.randrange(len(live)) if r.random() < .6 else -1)})
        out.append((c, ev))
    return fin(out)

def small(r, T):
    """every size of caller memory around the minimum, every misalignment"""
    out = []
    for kind in (2, 3):
        for blk in (1, 16, 17, 40):
            for mis in (range(16) if T else (0, 1, 6, 7, 8, 15)):
                for msz in list(range(1, 80)) + list(range(96, 240, 1 if T else 3)):
                    out.append(({"kind": kind, "blk": blk, "max": 0, "unit": 0, "msz": msz, "mis": mis},
                                [{"op": "init"}] + [{"op": "alloc", "id": i, "n": 0} for i in range(8)] + [{"op": "free", "id": 0}, {"op": "alloc", "id": 8, "n": 0}]))
    return fin(out)

def check(c):
    exe = build(c, "alloc"); exo = build(c, "alloco", True)
    T = c.thorough
    k0 = k = "CONSTANTS Kinds = {0,1}\n Blks = {1,24}\n Maxs = {0,1,3}\n Units = {1,2}\n Ids = {0,1,2,3}\n Lens = {0}\n"
    sc = c.explore("Alloc", k, 9)
    c.conform("Alloc", exe, fin(sc), F, CFG, k, "pool transition cover")
    if c.viol: return
    sc = c.explore("Alloc", "CONSTANTS Kinds = {0}\n Blks = {8}\n Maxs = {0,2}\n Units = {1,3}\n Ids = {0,1,2,3}\n Lens = {0}\n", 8 if T else 7, tree=True)
    if len(sc) > 40000: sc = c.rng.sample(sc, 40000)
    c.conform("Alloc", exe, fin(sc), F, CFG, k, "every allocate/free sequence")
    if c.viol: return
    c.conform("Alloc", exe, small(c.rng, T), F, CFG, k, "caller memory of every size and alignment")
    if c.viol: return
    for e, l in ((exe, "debug build"), (exo, "optimized build")):
        c.conform("Alloc", e, rand(c.rng, 600 if T else 80, 200), F, CFG, k, "seeded random histories, " + l)
        if c.viol: return
    # memory running out while the pool is made, and later
    S = []
    for kind in (0, 1):
        for blk in (8, 24, 100):
            for mx in (0, 3):
                for k in (1, 2, 3):
                    S.append(({"kind": kind, "blk": blk, "max": mx, "unit": 2, "msz": 0, "mis": 0}, [{"op": "fail", "k": k}, {"op": "init"}, {"op": "fini"}]))
                    S.append(({"kind": kind, "blk": blk, "max": mx, "unit": 2, "msz": 0, "mis": 0}, [{"op": "fail", "k": k}, {"op": "init"}] + [{"op": "alloc", "id": i, "n": 0} for i in range(7)]))
    c.conform("Alloc", exe, fin(S), F, CFG, k0, "memory running out while a pool is made")
    if c.viol: return
    # objects, and managers stacked on a pool
    X = {"info": [], "new": ["v", "boom"], "del": ["i"], "take": ["n"], "give": ["i"], "tiny": []}; XC = ["kind", "cap", "size"]
    px = c.build("poolx", ["poolx.cpp", "@src/mempool.c", "@src/memmgr.c"])
    k = "CONSTANTS Kinds = {%s}\n Caps = {1,2}\n Asks = {0,1,24,5000}\n MaxLive = 3\n"
    c.conform("PoolX", px, c.explore("PoolX", k % "0,2", 6 if T else 5, tree=True), X, XC, k % "0,1,2", "objects and stacked managers", shards=8, timeout=600)
    if c.viol: return
    r = c.rng; S = []
    for _ in range(400 if T else 60):
        cap = r.choice([1, 2, 3, 8, 40]); size = r.choice([1, 24, 100]); ops = [{"op": "info"}]; kind = r.randint(0, 2)
        live = []; raw = []; nx = 1; tops = cap if kind == 0 else None
        for _ in range(150):
            z = r.random(); full = tops is not None and len(live) + len(raw) >= tops
            if kind == 1 and len(live) + len(raw) >= cap: z = max(z, .7)
            if z < .45:
                b = int(r.random() < .3); ops.append({"op": "new", "v": r.randint(0, 255), "boom": b})
                if not full and not b: live.append(nx); nx += 1
            elif z < .6:
                n = r.choice([0, 1, size, size, 100000]); ops.append({"op": "take", "n": n})
                if not full and n <= size: raw.append(nx); nx += 1
            elif z < .85 and live: ops.append({"op": "del", "i": live.pop(r.randrange(len(live)))})
            elif raw: ops.append({"op": "give", "i": raw.pop(r.randrange(len(raw)))})
            elif z > .95: ops.append({"op": "tiny"})
        S.append(({"kind": kind, "cap": cap, "size": size}, ops))
    c.conform("PoolX", px, S, X, XC, k % "0,1,2", "long histories of objects", timeout=600)
    if c.viol: return
    longt.check(c, 3, ["pool", "mem"])
