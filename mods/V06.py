F = {"byte": ["x"], "buf": ["b"], "run": ["n", "x"], "adv": ["n", "x"], "reserve": ["n"], "grow": ["n"], "reinit": ["n"]}
CFG = ["cap"]
def check(c):
    exe = c.build("bufd", ["bufd.c"]); T = c.thorough; r = c.rng
    k = "CONSTANTS Bytes = {1,255}\n Caps = {0,1,2,3}\n MaxN = %d\n" % (6 if T else 4)
    c.conform("BufF", exe, c.explore("BufF", k, 8), F, CFG, k, "transition cover")
    if c.viol: return
    k2 = "CONSTANTS Bytes = {1}\n Caps = {1,2}\n MaxN = 12\n"
    sc = c.explore("BufF", k2, 4 if T else 3, tree=True)
    c.conform("BufF", exe, sc if T else r.sample(sc, min(len(sc), 9000)), F, CFG, k2, "every history of given length")
    if c.viol: return
    g = []
    for _ in range(500 if T else 80):
        ev = []; n = 0
        for _ in range(100):
            o = r.choice(["byte", "byte", "buf", "run", "adv", "reserve", "grow", "reset" if r.random() < .1 else "byte", "reinit" if r.random() < .1 else "byte"])
            e = {"op": o, "x": r.randint(0, 255), "n": r.choice([0, 1, 2, 7, 16, 33, 127, 128])}
            if o == "buf": e["b"] = [r.randint(0, 255) for _ in range(r.choice([0, 1, 3, 20, 64]))]
            ev.append(e)
            if len(ev) % 30 == 0: ev.append({"op": "reset"})
        g.append(({"cap": r.choice([0, 1, 2, 3, 16, 100])}, ev))
    c.conform("BufF", exe, g, F, CFG, k, "seeded histories")
    if c.viol: return
    # contents and growth past 8 and 16 bits
    g = []
    L = [255, 256, 257, 300, 511, 513, 4095, 4097] 
    for n in L + [65535, 65536, 65537, 66000, 131073]:
        if n > 5000 and not T and r.random() < .5: continue
        for st in ("run", "adv", "buf", "grow", "reserve"):
            if n > 5000 and st == "buf" and not T: continue
            e = {"op": st, "n": n, "x": r.randint(0, 255)}
            if st == "buf": e["b"] = [(i * 3 + i // 256) % 256 for i in range(n)]
            ev = [{"op": "run", "n": r.choice([0, 1, 200]), "x": 7}, e, {"op": "byte", "x": 9}, {"op": "run", "n": r.choice([1, 255, 300]), "x": 1}, {"op": "grow", "n": r.choice([1, 300, n])}, {"op": "byte", "x": 4}, {"op": "reset"}, {"op": "byte", "x": 5}]
            g.append(({"cap": r.choice([0, 1, 255, 256, 300, n, n - 1])}, ev))
    c.conform("BufF", exe, g, F, CFG, k, "long buffers", timeout=800)
