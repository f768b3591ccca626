from mods.textcommon import *
F = {"size": ["x", "n"], "hinit": ["fl"], "hclose": [], "hwrite": ["d", "fail", "err"], "file": ["d"], "full": ["d"],
     "open": ["tty", "cols", "total", "human"], "upd": ["inc"], "finish": ["clr", "nl"]}
CFG = ["k"]
limbs = lambda v: [v >> 48 & 65535, v >> 32 & 65535, v >> 16 & 65535, v & 65535]
def check(c):
    exe = c.build("show", ["show.c", "@src/humanize.c", "@src/hexdump.c", "@src/progbar.c", "@src/strcopy.c"], libs=["-lutil", "-lpthread"])
    T = c.thorough; r = c.rng
    K = lambda kinds, bufs="20", cols="80": "CONSTANTS Sizes <- SizesV\n Bufs = {%s}\n Datas <- DatasV\n Kinds = {%s}\n Cols = {%s}\n Totals <- TotalsV\n Incs <- IncsV\n" % (bufs, ",".join('"%s"' % x for x in kinds), cols)
    k0 = K(["size", "hex", "bar"])
    c.conform("ShowF1", exe, batch(c.explore("ShowF1", K(["size"], "0,1,2,5,6,7,8,9,32"), 1, tree=True)), F, CFG, k0, "sizes around every unit, every buffer size")
    if c.viol: return
    c.conform("ShowF1", exe, c.explore("ShowF1", K(["hex"]), 3 if not T else 4), F, CFG, k0, "hex dumps: sessions, failing writers")
    if c.viol: return
    c.conform("ShowF1", exe, c.explore("ShowF1", K(["bar"], cols="0,1,30,47,80" if not T else "0,1,2,3,30,47,50,51,80,132"), 3 if not T else 4), F, CFG, k0, "progress bars: every short history")
    if c.viol: return
    sc = []; ev = []
    for i in range(4000 if T else 500):
        b = r.randint(0, 64); x = (r.getrandbits(64) >> b) if b < 64 else 0
        if r.random() < .4: x = (1 << r.choice([10, 20, 30, 40, 50, 60])) * r.randint(1, 15) + r.choice([0, 1, 5, 10, 51, 52, 53, 102, 103, 512, 1023])
        ev.append({"op": "size", "x": limbs(x), "n": r.choice([64, 32, 32, r.randint(1, 12)])})
    sc += batch([({"k": "size"}, ev)], 50)
    for i in range(60 if T else 12):
        ev = [{"op": "hinit", "fl": r.randint(0, 1)}]
        for q in range(5):
            d = [r.getrandbits(8) for _ in range(r.choice([r.randint(0, 20), r.randint(0, 80), 16 * r.randint(0, 5)]))]
            ev.append({"op": "hwrite", "d": d, "fail": r.choice([0, 0, 0, 1, 2, 5]), "err": r.choice([5, 28, 32, 1])})
            ev.append({"op": r.choice(["file", "full"]), "d": d})
        sc.append(({"k": "hex"}, ev + [{"op": "hclose"}]))
    sc.append(({"k": "hex"}, [{"op": "file", "d": list(range(256))}]))
    c.conform("ShowF1", exe, sc, F, CFG, k0, "seeded sizes and dumps")
    if c.viol: return
    sc = []
    for cols in range(0, 140 if T else 84):
        total = r.choice([100, 1000, 7, 64, 1 << 20, (1 << 40) + 12345, r.randint(1, 1 << 30)])
        ev = [{"op": "open", "tty": 1, "cols": cols, "total": limbs(total), "human": r.randint(0, 1)}]
        n = 0
        while n < total and len(ev) < 14:
            z = r.choice([0, total // 7 + 1, total // 20 + 1, max(1, total // 100)]); n += z; ev.append({"op": "upd", "inc": limbs(z)})
        ev += [{"op": "upd", "inc": limbs(max(0, total - n))}, {"op": "upd", "inc": limbs(r.choice([0, 1, total]))}, {"op": "finish", "clr": r.randint(0, 1), "nl": r.randint(0, 1)}, {"op": "upd", "inc": limbs(total // 2 + 1)}]
        sc.append(({"k": "bar"}, ev))
    for t in ((1 << 64) - 1, 1 << 63, (1 << 60) + 1, (1 << 58)):
        sc.append(({"k": "bar"}, [{"op": "open", "tty": 1, "cols": 80, "total": limbs(t), "human": h}] + [{"op": "upd", "inc": limbs(t // 8)} for _ in range(8)] + [{"op": "upd", "inc": limbs(t % 8)}]) if (h := r.randint(0, 1)) is not None else None)
    for i in range(20): sc.append(({"k": "bar"}, [{"op": "open", "tty": 1, "cols": 80, "total": limbs(0), "human": i % 2}] + [{"op": "upd", "inc": limbs(r.getrandbits(r.randint(1, 58)))} for _ in range(8)]))
    c.conform("ShowF1", exe, sc, F, CFG, k0, "progress bars: every terminal width, seeded totals")
    if c.viol: return
    # past 8 and 16 bits: wide terminals, long dumps
    sc = []
    for cols in [255, 256, 257, 300, 511, 512, 600, 1000, 4095, 4096, 32767, 32768, 65535][:None if T else 9] + ([] if T else r.sample([32767, 32768, 65535], 1)):
        total = r.choice([1000, 70000, 1 << 33])
        sc.append(({"k": "bar"}, [{"op": "open", "tty": 1, "cols": cols, "total": limbs(total), "human": r.randint(0, 1)}] + [{"op": "upd", "inc": limbs(total // 5)} for _ in range(5)] + [{"op": "finish", "clr": 1, "nl": 1}]))
    pat = lambda n: [(i * 7 + i // 256) % 256 for i in range(n)]
    for n in lengths(c, 6, 1):
        d = pat(n)
        sc.append(({"k": "hex"}, [{"op": "file", "d": d}] + ([{"op": "hinit", "fl": r.randint(0, 1)}, {"op": "hwrite", "d": d, "fail": r.choice([0, (n + 15) // 16]), "err": 5}, {"op": "hwrite", "d": d[:40], "fail": 0, "err": 5}, {"op": "hclose"}] if n < 6000 or T else [])))
    c.conform("ShowF1", exe, sc, F, CFG, k0, "wide terminals and long dumps", timeout=800)
