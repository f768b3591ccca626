from mods.textcommon import *
F = {"read": ["n"]}
CFG = ["b", "e"]
def check(c):
    exe = c.build("lined", ["lined.c", "@src/freadline.c"]); T = c.thorough; r = c.rng
    k = "CONSTANTS Alpha = {10,13,97,200}\n MaxLen0 = %d\n Sizes = {1,2,4}\n" % (6 if T else 4)
    sc = c.explore("LineF", k, 3, tree=True)
    c.conform("LineF", exe, sc if T else r.sample(sc, min(len(sc), 9000)), F, CFG, k, "every short stream, every sequence of buffer sizes")
    if c.viol: return
    k1 = k.replace("{1,2,4}", "{8}")
    c.conform("LineF", exe, c.explore("LineF", k1, 6, tree=True), F, CFG, k1, "every short stream read to its end")
    if c.viol: return
    g = []
    for _ in range(3000 if T else 400):
        al = r.choice([[10, 13, 97], list(range(256)), [10, 97, 98, 99, 100], [13, 10], [97] * 20 + [13, 10], [255, 10, 13, 0]])
        b = rstr(r, al, r.choice([0, 1, 2, 5, 20, 60, 120]))
        if r.random() < .3: b += r.choice([[13], [10], [13, 10], [13, 13], [10, 13]])
        sz = r.choice([[1, 2, 3, 5, 9], [200], [20, 21, 19], [130, 1]])
        g.append(({"b": b, "e": int(r.random() < .3)}, [{"op": "read", "n": r.choice(sz)} for _ in range(r.choice([5, 30, 60]))]))
    for n in range(1, 12):   # lines around the buffer size
        for d in (-2, -1, 0, 1, 2):
            for t in ([], [10], [13], [13, 10]):
                if n + d >= 0: g.append(({"b": [65] * (n + d) + t + ([66] if t else []) + t, "e": 0}, [{"op": "read", "n": n}] * 4 + [{"op": "read", "n": 20}] * 2))
    c.conform("LineF", exe, g, F, CFG, k, "seeded streams, lines around the buffer size")
    if c.viol: return
    g = []
    for n in lengths(c):
        b = []
        for d in (0, 1)[:1 if n > 9000 else 2]: b += [r.choice([65, 200])] * (n + d) + r.choice([[10], [13], [13, 10]]) + [66, 10]
        g.append(({"b": b, "e": 0}, [{"op": "read", "n": r.choice([n + 2, n + 2, n + 300, 200000])} for _ in range(5)]))
        g.append(({"b": [67] * n + r.choice([[], [10]]), "e": 0}, [{"op": "read", "n": r.choice([n + 1, n, n - 1]) if n < 1100 else n + 1}]))
    c.conform("LineF", exe, g, F, CFG, k, "long lines", timeout=600)
