from mods.savecommon import *
def check(c):
    exe = build(c); T = c.thorough; r = c.rng
    k = "CONSTANTS Kinds = {0,1,2,3,4}\n Sizes = {1,9}\n Flips = {0,7,70,200,4096}\n Lens = {0,63,100,4095}\n"
    c.conform("FileF", exe, c.explore("FileF", k, 7), F, CFG, k, "transition cover")
    if c.viol: return
    g = []
    for kind in range(5):
        for n in [1, 2, 5, 17, 60] + ([3, 9, 33, 200] if T else []):
            cfg = {"k": kind, "n": n, "e": r.choice([0, 1, 3]), "seed": r.randint(1, 1 << 30)}
            st = 1 if T or n < 3 else 7
            if kind >= 3 and not T: st = 13
            g.append((cfg, [{"op": "save"}, {"op": "load", "mm": 0}, {"op": "flipall", "st": st, "off": r.randint(0, st - 1)}, {"op": "load", "mm": 1}]))
            g.append((cfg, [{"op": "save"}, {"op": "truncall", "st": st}, {"op": "extall", "n": 200}, {"op": "load", "mm": 0}]))
    c.conform("FileF", exe, g, F, CFG, k, "every byte altered, every truncation", shards=8, timeout=600)
    if c.viol: return
    g = []
    for kind in range(5):
        for n in [1, 9, 60, 500]:
            ev = [{"op": "save"}] + [{"op": "loadm", "mm": m, "w": w, "k": k_} for m in (0, 1) for w in range(4) for k_ in range(8 if w == 0 else 2)]
            g.append(({"k": kind, "n": n, "e": r.choice([0, 1, 3]), "seed": r.randint(1, 1 << 30)}, ev + [{"op": "load", "mm": 0}, {"op": "trunc", "n": 70}] + ev[1:]))
    c.conform("FileF", exe, g, F, CFG, k, "memory, mappings and descriptors refused during a load", timeout=600)
    if c.viol: return
    g = []
    for _ in range(4000 if T else 400):
        kind = r.randint(0, 4)
        ev = [{"op": "save"}]; mem = False
        for _ in range(12):
            op = r.choice(["flip", "flips", "swap", "trunc", "cut", "ext", "load", "load", "grow", "save"])
            if op == "load": ev += [{"op": "load", "mm": r.randint(0, 1)}]
            elif op == "save": ev.append({"op": "save"})
            elif op == "grow":
                if kind < 3: ev += [{"op": "load", "mm": 0}, {"op": "grow", "n": r.choice([1, 5, 300])}, {"op": "save"}, {"op": "load", "mm": 1}]
            else:
                big = 1 << 24
                ev.append({"op": op, **{"flip": {"p": r.randint(0, big), "m": r.randint(1, 255)}, "flips": {"l": [x for _ in range(r.randint(1, 9)) for x in (r.randint(0, big), r.randint(0, 254))]},
                          "swap": {"p": r.randint(0, big), "q": r.randint(0, big)}, "trunc": {"n": r.randint(0, big)}, "cut": {"p": r.randint(0, big), "n": r.randint(0, 100)},
                          "ext": {"n": r.choice([1, 8, 32, 64, 4096]), "v": r.randint(0, 255)}}[op]})
                ev += [{"op": "load", "mm": r.randint(0, 1)}, {"op": "heal"}]
        g.append(({"k": kind, "n": r.choice([1, 2, 3, 8, 40, 300, 2000]), "e": r.randint(0, 6), "seed": r.randint(1, 1 << 30)}, ev))
    c.conform("FileF", exe, g, F, CFG, k, "seeded damage histories", timeout=600)
    if c.viol: return
    # files past 16 bits of everything that is counted
    g, big = [], 1 << 24
    for kind in range(5):
        for n in [30000, 65536, 70000] + ([150000, 300000] if T else []):
            ev = [{"op": "save"}, {"op": "load", "mm": 0}, {"op": "load", "mm": 1}] + ([{"op": "grow", "n": 70000}, {"op": "save"}, {"op": "load", "mm": 1}, {"op": "load", "mm": 0}] if kind < 3 and n < 70000 else [])
            for _ in range(12):
                ev += [r.choice([{"op": "flip", "p": r.randint(0, big), "m": 1 << r.randint(0, 7)}, {"op": "trunc", "n": r.randint(0, big)}, {"op": "cut", "p": r.randint(0, big), "n": r.randint(0, big)},
                                 {"op": "ext", "n": r.choice([1, 256, 65536]), "v": 0}, {"op": "swap", "p": r.randint(0, big), "q": r.randint(0, big)}]), {"op": "load", "mm": r.randint(0, 1)}, {"op": "heal"}]
            g.append(({"k": kind, "n": n, "e": r.choice([0, 1, 3, 5]), "seed": r.randint(1, 1 << 30)}, ev + [{"op": "load", "mm": 0}, {"op": "load", "mm": 1}]))
    c.conform("FileF", exe, g, F, CFG, k, "filters of many thousand entries", timeout=600)
