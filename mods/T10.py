from mods.textcommon import *
F = {"find": ["t"]}
CFG = ["p", "w"]
def K(alpha, mp, mt): return "CONSTANTS Alpha = {%s}\n MaxPat = %d\n MaxText = %d\n" % (",".join(map(str, alpha)), mp, mt)
def check(c):
    exe = c.build("matchd", ["matchd.cpp"], cxx=True); T = c.thorough; r = c.rng
    for al, mp, mt in (([97, 200], 6 if T else 5, 9 if T else 7), ([97, 98, 255], 3, 6 if T else 5)):
        k = K(al, mp, mt)
        sc = c.explore("MatchF", k, 1, tree=True)
        if not T: sc = r.sample(sc, min(len(sc), 14000))
        c.conform("MatchF", exe, batch(sc, 250), F, CFG, k, "every pattern and text over a small alphabet")
        if c.viol: return
    def per(al, n):
        w = rstr(r, al, r.randint(1, 4)); s = (w * (n // len(w) + 1))[:n]
        if r.random() < .5 and s: s[r.randrange(len(s))] = r.choice(al)
        return s
    g = []
    for i in range(2500 if T else 300):
        al = r.choice([[97, 98], [97, 98, 99], [200, 255, 128], list(range(256)), [97, 98]])
        n = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 12, 20, 31, 32, 33, 34, 40, 64, 65])
        p = per(al, n) if r.random() < .6 else rstr(r, al, n)
        ev = []
        for _ in range(8):
            t = []
            L = r.choice([0, 1, n - 1, n, n + 1, 2 * n, 5 * n, 120])
            while len(t) < L:
                z = r.random()
                t += p if z < .3 else p[:r.randint(0, n)] if z < .5 else p[r.randint(0, n):] if z < .7 else per(al, r.randint(1, n)) if z < .85 else rstr(r, al, r.randint(1, 5))
            t = t[:L] if r.random() < .7 else t
            ev.append({"op": "find", "t": t[:200]})
        g.append(({"p": p, "w": r.randint(0, 2)}, ev))
    c.conform("MatchF", exe, g, F, CFG, k, "seeded periodic patterns and texts, three element types")
    if c.viol: return
    g = []
    for n in [2, 5, 64] + [x for x in lengths(c) if x < 1100]:
        al = r.choice([[97, 98], [97, 98, 99, 200]]); p = rstr(r, al, n); q = per(al, n); ev = []
        for pp in (p, q):
            t = rstr(r, al, 300) + pp + pp[:n // 2] + pp + pp + rstr(r, al, r.choice([0, 300, 700]))
            g.append(({"p": pp, "w": r.randint(0, 2)}, [{"op": "find", "t": t}, {"op": "find", "t": t[:300 + n - 1]}]))
    c.conform("MatchF", exe, g, F, CFG, k, "long patterns and texts", timeout=600)
