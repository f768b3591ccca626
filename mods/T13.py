from mods.textcommon import *
F = {"cinit": ["lev", "wb", "osz", "fail"], "cfeed": ["d", "take"], "cend": ["take"], "uinit": ["p", "lev", "wb", "cut", "flip", "junk", "osz", "fail"],
     "ufeed": ["n", "take"], "uend": ["take"]}
CFG = ["k"]
def check(c):
    exe = c.build("zbuf", ["zbuf.c", "@src/zbuf_c.c", "@src/zbuf_unc.c"], libs=["-lz"])
    T = c.thorough; r = c.rng
    def K(kinds, sizes="4", levs="5", fails="0", alpha="97", dl=0, pl=0, tk="TK0", de="D0", feeds="1"):
        return ("CONSTANTS Datas <- DatasV\n Takes <- TakesV\n Plains <- PlainsV\n Defects <- DefectsV\n TakeKinds <- %s\n DefKinds <- %s\n Sizes = {%s}\n Levs = {%s}\n Fails = {%s}\n Feeds = {%s}\n"
                " Kinds = {%s}\n Alpha = {%s}\n DLen = %d\n PLen = %d\n" % (tk, de, sizes, levs, fails, feeds, ",".join('"%s"' % k for k in kinds), alpha, dl, pl))
    k0 = K(["c", "u"])
    sc = c.explore("ZbufF1", K(["c"], sizes="1,7", tk="TK"), 4 if not T else 5)
    sc += c.explore("ZbufF1", K(["c"], sizes="1,2,3,64", levs="0,1,9,10", fails="0,1,2,3,4,5,6", alpha="97,98", dl=2), 3, tree=True)
    c.conform("ZbufF1", exe, batch(sc, 40), F, CFG, k0, "every short compressing session")
    if c.viol: return
    sc = c.explore("ZbufF1", K(["u"], sizes="1,7", tk="TK", de="D1", feeds="1,9,400"), 4 if not T else 5)
    sc += c.explore("ZbufF1", K(["u"], sizes="1,64", levs="1,9", fails="0,1,2,3", alpha="97,98", pl=2, feeds="3,400"), 4, tree=True)
    c.conform("ZbufF1", exe, batch(sc, 40), F, CFG, k0, "every short uncompressing session")
    if c.viol: return
    # every size of the buffer, every split in two of the stream, every bit of it changed
    sc, ev = [], []
    plains = [[120] * 260, list(b"abcabcabcabd" * 12), [(i * i * 31 + i // 7) % 256 for i in range(90)], []]
    for p in plains:
        for osz in list(range(1, 20)) + [len(p) - 1, len(p), len(p) + 1, 1000]:
            if osz < 1: continue
            for t in ([], [1], [osz - 1 or 1, 1]):
                for cutat in (0, 1, 2, 3, 5, 11, 12, 17):
                    ev += [{"op": "uinit", "p": p, "lev": 9, "wb": 15, "cut": 0, "flip": -1, "junk": 0, "osz": osz, "fail": 0},
                           {"op": "ufeed", "n": cutat, "take": t}, {"op": "ufeed", "n": 5000, "take": t}, {"op": "uend", "take": t}]
                    ev += [{"op": "cinit", "lev": 1 + cutat % 9, "wb": 15, "osz": osz, "fail": 0}, {"op": "cfeed", "d": p[:cutat * 5], "take": t},
                           {"op": "cfeed", "d": p[cutat * 5:], "take": t}, {"op": "cend", "take": t}]
        for bit in range(0, 8 * 60, 1 if T or len(p) < 90 else 3):
            for osz in (1, 50, 1000):
                ev += [{"op": "uinit", "p": p, "lev": 6, "wb": 15, "cut": 0, "flip": bit, "junk": 0, "osz": osz, "fail": 0}, {"op": "ufeed", "n": 5000, "take": []}, {"op": "uend", "take": []}]
    sc = [({"k": "c"}, ev[i:i + 120]) for i in range(0, len(ev), 120)]
    c.conform("ZbufF1", exe, sc, F, CFG, k0, "every buffer size, split and changed bit")
    if c.viol: return
    sc = []
    for i in range(1500 if T else 250):
        ev = []
        for q in range(6):
            n = r.choice([r.randint(0, 20), r.randint(0, 300), r.randint(300, 3000)])
            w = r.choice([1, 2, 3, 256]); d = [r.randrange(w) if r.random() < .9 else 9 for _ in range(n)]
            if r.random() < .3: d = (d[:30] * 90)[:n]
            osz = r.choice([1, 2, 5, 16, 100, 258, 259, 1024, r.randint(1, 600)])
            def tk(): return r.choice([[], [], [1, osz], [r.randint(1, osz) for _ in range(3)], [osz, osz, r.choice([0, -1, 1])]])
            wb = r.choice([9, 10, 12, 15])
            if r.random() < .5:
                ev.append({"op": "cinit", "lev": r.randint(0, 10), "wb": r.choice([wb, 0, 3, 16]), "osz": osz, "fail": r.choice([0] * 9 + [r.randint(1, 6)])})
                while d or r.random() < .3:
                    k = r.randint(0, max(1, len(d))); ev.append({"op": "cfeed", "d": d[:k], "take": tk()}); d = d[k:]
                ev.append({"op": "cend", "take": tk()})
            else:
                ev.append({"op": "uinit", "p": d, "lev": r.randint(1, 9), "wb": wb, "cut": r.choice([0, 0, 0, 1, 4, 10]), "flip": r.choice([-1, -1, -1, r.randrange(8 * 300)]), "junk": 0, "osz": osz, "fail": 0})
                if ev[-1]["cut"] == 0 and r.random() < .3: ev[-1]["junk"] = r.randint(1, 30)
                for _ in range(r.randint(1, 6)): ev.append({"op": "ufeed", "n": r.choice([0, 1, 3, 20, 200, 5000]), "take": tk()})
                if r.random() < .7: ev.append({"op": "ufeed", "n": 5000, "take": tk()})
                ev.append({"op": "uend", "take": tk()})
        sc.append(({"k": "c"}, ev))
    # enough for zlib to hand out data before the end
    for i in range(6 if T else 2):
        n = r.randint(50000, 60000); d = [r.randrange(256) for _ in range(n)]; osz = r.choice([3000, 4096, 8191])
        ev = [{"op": "cinit", "lev": r.randint(1, 9), "wb": 15, "osz": osz, "fail": 0}]; k = r.randint(40000, 48000)
        ev += [{"op": "cfeed", "d": d[:k], "take": [osz, osz - 1, 1000 + i, osz]}, {"op": "cfeed", "d": d[k:], "take": [[2000, 2999], [osz, 0], [2500, -1]][i % 3]}, {"op": "cend", "take": [1500]}]
        sc.append(({"k": "c"}, ev))
    c.conform("ZbufF1", exe, sc, F, CFG, k0, "seeded sessions")
    if c.viol: return
    # output buffers and what is taken of them past 8, 15 and 16 bits
    sc = []
    for osz in [255, 256, 257, 300, 512, 4096, 32767, 32768, 40000, 65535, 65536, 70000]:
        n = r.choice([osz - 1, osz, osz + 1]) if osz < 5000 else osz + r.choice([1000, 3000])
        if osz > 5000 and not T and r.random() < .4: continue
        d = [r.randrange(256) for _ in range(n)]
        for t in ([], [osz // 2], [osz - 1, 1]) if osz < 5000 or T else ([[], [osz - 1, 1]][r.randint(0, 1)],):
            sc.append(({"k": "c"}, [{"op": "cinit", "lev": r.randint(1, 9), "wb": 15, "osz": osz, "fail": 0}, {"op": "cfeed", "d": d, "take": t}, {"op": "cend", "take": t}]))
            sc.append(({"k": "c"}, [{"op": "uinit", "p": d, "lev": r.randint(1, 9), "wb": 15, "cut": 0, "flip": -1, "junk": 0, "osz": osz, "fail": 0}, {"op": "ufeed", "n": 200, "take": t}, {"op": "ufeed", "n": 200000, "take": t}, {"op": "uend", "take": t}]))
    c.conform("ZbufF1", exe, sc, F, CFG, k0, "large output buffers", timeout=800)
