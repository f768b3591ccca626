from mods.textcommon import *
F = {"conv": ["x", "h", "m"], "konst": ["x", "m", "k"], "up": ["x", "k", "b", "v"], "down": ["x", "k", "b", "v"], "is": ["x", "k", "b", "v"], "pow2": ["x", "b", "v"], "next": ["x", "b", "v"],
     "index": ["x", "y", "b"], "unit": ["m", "x"]}
F["unit"] = ["x", "m", "b"]
F["clock"] = ["x", "m", "y"]
F["enc"] = ["x", "h", "b"]
F["dec"] = ["d", "h", "b"]
CFG = ["k"]
def check(c):
    T = c.thorough; r = c.rng
    exe = c.build("wordop", ["wordop.cpp", "wordopb.c", "wordopc.c"], cxx=True, libs=["-Wl,--wrap=gettimeofday,--wrap=clock_gettime"])
    def K(ops, words="Edge", sh="0..63"): return "CONSTANTS Ops = {%s}\n Words <- %s\n Shifts = {%s}\n" % (",".join('"%s"' % o for o in ops), words, sh)
    sh = ",".join(str(i) for i in (range(64) if T else (0, 1, 2, 3, 6, 12, 16, 31, 32, 33, 47, 62, 63)))
    k0 = K(["conv"], sh="0")
    for ops, w, what in ((["conv"], "Edge", "every conversion of every word around a power of two"), (["enc"], "Edge", "every encoding and decoding of every word around a power of two"), (["align"], "Few" if not T else "Edge", "every alignment"), (["pow"], "Edge", "powers of two"),
                         (["index"], "Few" if not T else "Edge", "bounded indexes"), (["unit"], "Edge", "time units")):
        c.conform("WordOpF1", exe, batch(c.explore("WordOpF1", K(ops, w, sh), 1, tree=True), 200), F, CFG, k0, what)
        if c.viol: return
    def wd():
        v = r.getrandbits(r.choice([8, 16, 31, 32, 33, 48, 63, 64])); return [v >> 48, v >> 32 & 65535, v >> 16 & 65535, v & 65535]
    def lo(w): return [0, 0, w[2], w[3]]
    ev = []
    for _ in range(20000 if T else 3000):
        x = wd(); o = r.choice(list(F)); b = r.choice([4, 8])
        if o == "conv": ev.append({"op": o, "x": x, "h": r.choice("LB"), "m": r.randint(1, 20)})
        elif o in ("up", "down", "is"):
            x = lo(x) if b == 4 else x
            if b == 4 and o == "up": x[2] &= 32767
            if b == 8 and o == "up": x[0] &= 32767
            ev.append({"op": o, "x": x, "k": r.randrange(8 * b - 1), "b": b, "v": r.randint(0, 1)})
        elif o in ("enc", "dec"):
            b = r.choice([2, 4, 8, 9])
            if b == 9 and (x[0] >> 4 & 2047) == 2047: x[0] &= 0x3fff
            d = [z for w in x for z in (w >> 8, w & 255)]; h = r.choice("LB")
            ev.append({"op": o, "x": x, "h": h, "b": b} if o == "enc" else {"op": o, "d": (d[::-1] if h == "L" else d)[:8] if b > 4 else d[:b], "h": h, "b": b})
        elif o == "index":
            x[0] &= 32767; y = wd(); y[0] &= 32767
            if r.random() < .3: y = list(x)
            ev.append({"op": o, "x": lo(x) if b == 4 else x, "y": lo(y) if b == 4 else y, "b": b})
        elif o == "unit": ev.append({"op": o, "x": [0, 0, x[2] & 32767, x[3]], "m": r.randint(1, 9), "b": b})
        elif o == "clock": ev.append({"op": o, "x": [0, x[1] & 1, x[2], x[3]], "m": r.randint(1, 3), "y": [0, 0, r.randint(0, 14), x[3]]})
        elif o == "next":
            x = lo(x) if b == 4 else x; x[2 if b == 4 else 0] &= 32767; x[3] |= 1; ev.append({"op": o, "x": x, "b": b, "v": r.randint(0, 1)})
    c.conform("WordOpF1", exe, batch([({"k": 0}, ev)], 200), F, CFG, k0, "seeded words")
