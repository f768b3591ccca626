from mods import longt
F = {"probe": ["k", "x"], "rep": ["k", "x"], "find": ["k"], "rem": ["k"]}
CFG = ["sz", "mf", "km", "seed"]

def rand(r, n, ln):
    out = []
    for _ in range(n):
        nk = r.choice([3, 12, 60, 400])
        cfg = {"sz": r.choice([0, 1, 2, 3, 8, 64]), "mf": r.choice([0, 10, 50, 85, 100, 100000]), "km": r.randint(0, 9), "seed": r.randint(1, 1 << 30)}
        ev, grow = [], 0.6
        for _ in range(ln):
            if r.random() < 0.03: grow = r.choice([0.1, 0.3, 0.5, 0.9])
            k, x = r.randint(1, nk), r.randint(1, 99)
            if r.random() < 0.2: ev.append({"op": "find", "k": k})
            elif r.random() < grow: ev.append({"op": r.choice(["probe", "probe", "probe", "rep"]), "k": k, "x": x})
            else: ev.append({"op": "rem", "k": k})
        out.append((cfg, ev))
    return out

def churn(r, n, ln):
    """few live entries, many different keys: memory must stay bounded"""
    out = []
    for _ in range(n):
        cfg = {"sz": r.choice([1, 8, 16]), "mf": r.choice([0, 50]), "km": r.randint(0, 9), "seed": r.randint(1, 1 << 30)}
        ev, live, k, cap = [], [], 0, r.choice([1, 2, 4, 9])
        for _ in range(ln):
            if len(live) < cap and r.random() < .6:
                k += 1; live.append(k); ev.append({"op": "probe", "k": k, "x": k % 90 + 1})
            elif live: ev.append({"op": "rem", "k": live.pop(r.randrange(len(live)))})
        for k in live: ev.append({"op": "find", "k": k})
        out.append((cfg, ev))
    return out

def check(c):
    exe = c.build("fastht", ["fastht.c", "@src/hashtable/fast-ht.c"])
    T = c.thorough
    k = "CONSTANTS Keys = {1,2,3}\n Vals = {1,2}\n Sizes = {1,4}\n Fills = {50,100000}\n Maps = {0,1,2}\n"
    c.conform("FastHt", exe, c.explore("FastHt", k, 6), F, CFG, k, "transition cover")
    if c.viol: return
    sc = c.explore("FastHt", "CONSTANTS Keys = {1,2}\n Vals = {1%s}\n Sizes = {1}\n Fills = {50,100000}\n Maps = {1}\n" % (",2" if T else ""), 5 if T else 4, tree=True)
    if len(sc) > 60000: sc = c.rng.sample(sc, 60000)
    c.conform("FastHt", exe, sc, F, CFG, k, "every operation sequence")
    if c.viol: return
    c.conform("FastHt", exe, rand(c.rng, 800 if T else 80, 300), F, CFG, k, "seeded random histories")
    if c.viol: return
    c.conform("FastHt", exe, churn(c.rng, 200 if T else 20, 1200), F, CFG, k, "churn with bounded live set")
    if c.viol: return
    longt.check(c, 1, ["fast"])
