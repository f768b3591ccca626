from mods.textcommon import *
A = ["d", "rep", "fmt", "err", "status"]
F = {"print": A, "warn": A, "die": A, "error": A}
TXT = [9, 10, 32, 37, 92, 97, 98, 115, 110, 127, 200, 255]
CFG = ["prog", "has"]
def check(c):
    T = c.thorough; r = c.rng
    exe = c.build("diag", ["diag.c", "@src/error.c"], libs=["-Wl,--wrap=exit"])
    def K(texts="TextV", errs="ErrV", st="0,1,3", reps="1", mp=4):
        return "CONSTANTS CfgSet <- CfgV\n Texts <- %s\n Errs <- %s\n Stats = {%s}\n Reps = {%s}\n MaxPend = %d\n" % (texts, errs, st, reps, mp)
    def fx(sc): return [({"prog": g["prog"], "has": int(g["prog"] != [0])}, ev) for g, ev in sc]
    sc = fx(c.explore("DiagF1", K(), 4 if not T else 6))
    sc += fx(c.explore("DiagF1", K("TextS", "ErrS", "0,2"), 2 if not T else 3, tree=True))
    c.conform("DiagF1", exe, batch(sc, 20), F, CFG, K(), "every message after every other")
    if c.viol: return
    sc = []
    for p in ([0], [], [112], list(b"name")):       # lengths around every limit, line ends around the place where a text is cut
        ev = []
        for n in list(range(2030, 2060)) + [0, 1, 2, 1000, 2000, 4095, 4096, 5000, 9000] + ([33000, 65535, 65536, 66000, 67583, 67584, 70000] if T or p == [112] else []):
            for d in ([97], [97, 98, 10], [10]):
                for op in ("warn", "error", "die"):
                    if op != "warn" and r.random() < .6: continue
                    ev.append({"op": op, "d": d, "rep": n // len(d), "fmt": r.choice([0, 0, 7]), "err": r.choice([0, 2, -1]) if op == "error" else 0, "status": r.choice([0, 1, 127]) if op == "error" else 0})
        g = {"prog": p, "has": int(p != [0])}
        sc += [(g, ev[i:i + 25]) for i in range(0, len(ev), 25)]
    c.conform("DiagF1", exe, sc, F, CFG, K(mp=100000), "long messages")
    if c.viol: return
    sc = []
    for _ in range(400 if T else 60):
        p = r.choice([[0], [], rstr(r, TXT, r.randint(1, 20))]); ev = []
        for _ in range(30):
            op = r.choice(["print", "warn", "error", "die"]); d = rstr(r, TXT, r.randint(0, r.choice([3, 40, 200])))
            ev.append({"op": op, "d": d, "rep": 1 if op == "print" else r.choice([1, 1, 2, 30]), "fmt": 0 if op == "print" else r.choice([0, 0, r.randint(-10**6, 10**6)]), "err": r.choice([0, 1, 2, 22, -22]) if op == "error" else 0, "status": r.choice([0, 0, 1, 2, 255]) if op == "error" else 0})
        sc.append(({"prog": p, "has": int(p != [0])}, ev))
    c.conform("DiagF1", exe, sc, F, CFG, K(mp=100000), "seeded messages")
