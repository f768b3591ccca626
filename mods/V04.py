from mods import longq
FIELDS = {"enq": ["v"], "deq": [], "reset": []}
CFG = ["sz", "kind"]

def rand(rng, n, ln):
    out = []
    for _ in range(n):
        sz = rng.choice([2, 3, 4, 5, 8, 16])
        ev, bias = [], 0.5
        for k in range(ln):
            if rng.random() < 0.05:
                bias = rng.choice([0.2, 0.5, 0.8])
            x = rng.random()
            if x < 0.01: ev.append({"op": "reset"})
            elif x < bias: ev.append({"op": "enq", "v": rng.randint(1, 10000)})
            else: ev.append({"op": "deq"})
        out.append(({"sz": sz, "kind": rng.randint(0, 1)}, ev))
    return out

def check(c):
    exe = c.build("fq", ["fq.c"])
    consts = "CONSTANTS Sizes = {2,3,4%s}\n Vals = {1,2}\n Kinds = {0,1}\n" % (",5" if c.thorough else "")
    sc = c.explore("CircQueue", consts, 16 if c.thorough else 12)
    c.log("%d scripts from exploration" % len(sc))
    c.conform("CircQueue", exe, sc, FIELDS, CFG, consts, "exhaustive transition cover")
    c.conform("CircQueue", exe, rand(c.rng, 400 if c.thorough else 60, 300), FIELDS, CFG, consts, "seeded random histories")
    if c.viol: return
    longq.check(c, longq.FQ)
