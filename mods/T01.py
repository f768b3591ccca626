from mods.textcommon import *
F = {"split": ["s", "d", "sq"], "quick": ["s", "d", "sq", "n"]}
CFG = ["k"]
def K(alpha, ml, delims, ops, slots):
    return "CONSTANTS Alpha = {%s}\n MaxLen0 = %d\n Delims <- DelimsV\n Ops = {%s}\n Slots = {%s}\n" % (",".join(map(str, alpha)), ml, ",".join('"%s"' % o for o in ops), ",".join(map(str, slots)))
def check(c):
    exe = c.build("splitd", ["splitd.c", "@src/strsplit.c", "@src/strsplit_csv.c", "@src/splitargs.c", "@src/strtrim.c"]); T = c.thorough; r = c.rng
    k = K([97, 32, 44, 200], 6 if T else 4, 0, ["split", "quick"], [0, 1, 2, 3])
    sc = batch(c.explore("SplitF1", k, 1, tree=True))
    c.conform("SplitF1", exe, sc, F, CFG, k, "every string over a small alphabet")
    if c.viol: return
    ev = []
    for i in range(12000 if T else 1500):
        al = r.choice([[97, 32, 9, 44], [97, 98, 58, 46], list(range(1, 256)), [128, 129, 255, 32, 61], [97, 44]])
        s = rstr(r, al, r.choice([0, 1, 2, 7, 15, 16, 17, 31, 32, 33, 64, 65, 100]))
        if r.random() < .2: s = rstr(r, [97] * 3 + [44], r.choice([300, 700]))
        d = rstr(r, al, r.choice([0, 1, 1, 2, 3, 9])); sq = r.randint(0, 1)
        if r.random() < .5: ev.append({"op": "split", "s": s, "d": d, "sq": sq})
        else: ev.append({"op": "quick", "s": s, "d": d, "sq": sq, "n": max(0, r.choice([0, 1, 2, 16, 40, len(s) + 1, sum(x in d for x in s), sum(x in d for x in s) + 1, sum(x in d for x in s) - 1]))})
    c.conform("SplitF1", exe, batch([({"k": 0}, ev)], 30), F, CFG, k, "seeded strings")
    if c.viol: return
    ev = []
    for n in lengths(c):
        for al in ([97, 98, 44], [97] * 60 + [44]):
            s = rstr(r, al, n); f = sum(x == 44 for x in s)
            ev.append(r.choice([{"op": "split", "s": s, "d": [44], "sq": r.randint(0, 1)}, {"op": "quick", "s": s, "d": [44], "sq": r.randint(0, 1), "n": r.choice([f + 1, f, 256, 65536])}]))
    ev.append({"op": "split", "s": [97, 44] * 35000, "d": [44], "sq": 1})
    c.conform("SplitF1", exe, batch([({"k": 0}, ev)], 4), F, CFG, k, "long texts")
