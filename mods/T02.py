from mods.textcommon import *
from mods.T01 import K
F = {"csv": ["s", "d", "nul", "n"], "args": ["s", "n"]}
CFG = ["k"]
def check(c):
    exe = c.build("splitd", ["splitd.c", "@src/strsplit.c", "@src/strsplit_csv.c", "@src/splitargs.c", "@src/strtrim.c"]); T = c.thorough; r = c.rng
    for al, ops in (([97, 44, 34, 39, 92], ["csv"]), ([97, 32, 34, 39], ["args"])):
        k = K(al, (6 if T else 4) + (ops == ["args"]), 0, ops, [0, 1, 2, 5])
        sc = c.explore("SplitF2", k, 1, tree=True)
        if not T and len(sc) > 12000: sc = r.sample(sc, 12000)
        c.conform("SplitF2", exe, batch(sc), F, CFG, k, "every string over a small alphabet, " + ops[0])
        if c.viol: return
    ev = []
    for i in range(16000 if T else 2000):
        al = r.choice([[97, 32, 9, 44, 34, 39], [97, 34, 92, 44, 98], list(range(1, 256)), [128, 255, 32, 34, 162, 39, 44], [97, 44, 32, 92, 34]])
        s = rstr(r, al, r.choice([0, 1, 2, 7, 15, 16, 17, 31, 40, 100]))
        if r.random() < .5:   # well-formed quotes
            s = []
            for _ in range(r.randint(0, 8)):
                w = rstr(r, [97, 98, 200, 32, 44], r.randint(0, 5)); q = r.choice([0, 34, 39])
                if q: w = [q] + w + ([92, q] + rstr(r, [97, 32], 2) if r.random() < .3 else []) + [q]
                s += w + ([r.choice([44, 32])] if r.random() < .9 else [])
        n = r.choice([0, 1, 2, 3, 5, 9, 100])
        if r.random() < .5:
            d = r.choice([[], [44], [44, 59], [32], [200, 44], [34], rstr(r, al, 3)])
            ev.append({"op": "csv", "s": s, "d": d, "nul": int(d == [] and r.random() < .7), "n": n})
        else: ev.append({"op": "args", "s": s, "n": n})
    c.conform("SplitF2", exe, batch([({"k": 0}, ev)], 30), F, CFG, k, "seeded strings")
    if c.viol: return
    ev = []
    for n in lengths(c):
        al = r.choice([[97, 32, 44], [97] * 80 + [44, 32], [97, 98, 44, 200]])
        s = rstr(r, al, n)
        for _ in range(r.choice([0, 3])):
            i = r.randrange(len(s)); s[i:i] = [34] + rstr(r, [97, 44, 32], r.choice([3, 300])) + [34]
        for o in ("csv", "args"):
            f = sum(x == 44 for x in s) if o == "csv" else sum(x == 32 for x in s)
            e = {"op": o, "s": s, "n": r.choice([f + 2, f + 300, 256, 65536, max(0, f - 2)])}
            if o == "csv": e.update(d=[44], nul=r.randint(0, 1))
            if e.get("nul"): e["d"] = []
            ev.append(e)
    ev.append({"op": "csv", "s": [97, 44] * 34000, "d": [44], "nul": 0, "n": 70000}); ev.append({"op": "args", "s": [97, 32] * 34000, "n": 70000})
    ev.append({"op": "csv", "s": [97, 44] * 40000, "d": [44], "nul": 0, "n": 38000}); ev.append({"op": "args", "s": [97, 32] * 40000, "n": 38000})
    c.conform("SplitF2", exe, batch([({"k": 0}, ev)], 4), F, CFG, k, "long texts")
