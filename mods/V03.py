OPS = "set clr test copy or and xor andnot not dup dupa new newa".split()
F = {o: ["d", "i"] for o in OPS}
CFG = ["n"]
def check(c):
    exe = c.build("bitsetd", ["bitsetd.c"]); T = c.thorough; r = c.rng
    k = "CONSTANTS Ns = {1,2%s}\n" % (",3" if T else "")
    sc = c.explore("BitsF", k, 20)
    if len(sc) > 20000 and not T: sc = r.sample(sc, 20000)
    # the same behaviours on bitsets around word boundaries: bit j of the model is an arbitrary position
    m = []
    for cfg, ev in sc[::3]:
        N = r.choice([63, 64, 65, 127, 128, 129, 192]); pos = sorted(r.sample([0, 1, 31, 32, 62, 63, 64, 65, 127, 128, 191], 8))
        pos = [p for p in pos if p < N][:3]
        while len(pos) < cfg["n"]: pos.append(N - 1 - len(pos))
        m.append(({"n": N}, [dict(e, i=pos[e["i"]]) if e["op"] in ("set", "clr", "test") else e for e in ev]))
    c.conform("BitsF", exe, sc + m, F, CFG, k, "transition cover")
    if c.viol: return
    g = []
    for q in range(400 if T else 150):
        n = r.choice([1, 2, 7, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 191, 192, 193, 256]); ev = []
        for _ in range(80):
            o = r.choice(OPS + ["set"] * 6)
            ev.append({"op": o, "d": r.randint(0, 2), "i": r.choice([r.randint(0, n - 1), n - 1, n // 64 * 64 % n]) if o in ("set", "clr", "test") else r.randint(0, 2)})
        g.append(({"n": n}, ev))
    c.conform("BitsF", exe, g, F, CFG, k, "seeded histories")
    if c.viol: return
    # sizes past 8 and 16 bits
    g = []
    for n in [257, 300, 511, 512, 513, 1000, 5000, 65535, 65536, 65537, 66001][: 11 if T else 6] + ([] if T else [65536 + r.randint(0, 900)]):
        ev = []; pos = [0, 255, 256, 300, n - 1, n - 2, n - 64, n // 2, 65535, 65536, 32768]
        for _ in range(30 if n < 6000 else 16):
            o = r.choice(OPS + ["set"] * 10 + ["test"] * 4)
            if o == "not" and n > 6000 and not T: o = "set"
            ev.append({"op": o, "d": r.randint(0, 2), "i": r.choice(pos) % n if o in ("set", "clr", "test") else r.randint(0, 2)})
        if n > 6000: ev += [{"op": "not", "d": 0, "i": 0}, {"op": "and", "d": 1, "i": 0}, {"op": "andnot", "d": 0, "i": 1}]
        g.append(({"n": n}, ev))
    c.conform("BitsF", exe, g, F, CFG, k, "large bitsets", timeout=800)
