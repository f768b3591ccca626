from mods.textcommon import *
import base64
F = {"eblk": ["s"], "dblk": ["s"], "ebuf": ["s", "n"], "dbuf": ["s", "n"], "hex": ["s", "n"]}
CFG = ["m"]
def check(c):
    exe = c.build("codecd", ["codecd.c", "@src/b64_encode.c", "@src/b64_decode.c", "@src/str2hex.c"]); T = c.thorough; r = c.rng
    k = "CONSTANTS Chunks <- ChunksV\n Texts <- TextsV\n MaxN = %d\n" % (9 if T else 7)
    c.conform("CodecF1", exe, c.explore("CodecF1", k, 9), F, CFG, k, "transition cover of the stream transducers")
    if c.viol: return
    k2 = k.replace("MaxN = %d" % (9 if T else 7), "MaxN = 20")
    c.conform("CodecF1", exe, c.explore("CodecF1", k2, 5 if T else 4, tree=True), F, CFG, k2, "every sequence of blocks")
    if c.viol: return
    g = []
    ab = list(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/")
    for _ in range(1500 if T else 150):
        ev = []
        for _ in range(r.randint(1, 6)):
            n = r.choice([0, 1, 2, 3, 4, 53, 54, 55, 56, 57, 108, 109, 162, r.randint(0, 200)])
            ev.append({"op": "eblk", "s": [r.choice([0, 255, 128, r.randint(0, 255)]) for _ in range(n)]})
        ev.append({"op": "efin"}); g.append(({"m": 0}, ev))
        ev = []
        for _ in range(3):
            n = r.choice([0, 1, 2, 3, 5, 54, 55, r.randint(0, 150)])
            t = base64.b64encode(bytes(r.randint(0, 255) for _ in range(n)))
            if r.random() < .3: t = t.rstrip(b"=")
            t = list(t)
            for _ in range(r.choice([0, 0, 1, 3])): t.insert(r.randint(0, len(t)), r.choice([10, 13, 32, 9, 0, 255, 128, 46, 44, 123, 58, 91, 96, 64, 42]))
            i = 0
            while i < len(t):
                j = i + r.choice([0, 1, 1, 2, 3, 4, 5, 80]); ev.append({"op": "dblk", "s": t[i:j]}); i = j
            ev.append({"op": "dinit"})
        g.append(({"m": 1}, ev))
        ev = []
        for _ in range(6):
            s = [r.choice([0, 255, r.randint(0, 255)]) for _ in range(r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 53, 54, 55, 56, 107, 108, 109, 161, 162, 163, r.randint(0, 150)]))]
            need = (len(s) + 2) // 3 * 4 + len(s) // 54 + 2
            ev.append({"op": "ebuf", "s": s, "n": max(0, r.choice([need, need - 1, need + 1, 2 * len(s), 2 * len(s) + 6, 0, need + 50, len(s), need // 2, need - 2, 2 * len(s) + 1]))})
            t = list(base64.b64encode(bytes(s))); 
            if r.random() < .4: t = [r.choice(ab) for _ in range(r.randint(0, 40))]
            if r.random() < .5: t = t + [10]
            dn = sum(x in ab for x in t) * 6 // 8
            ev.append({"op": "dbuf", "s": t, "n": max(0, r.choice([dn, dn - 1, dn + 1, len(t), len(t) // 2, 0, len(t) + 9]))})
            h = [r.choice(b"0123456789abcdefABCDEF") for _ in range(r.choice([0, 1, 2, 3, 4, 7, 8, 33, 64]))]
            if h and r.random() < .3: h[r.randrange(len(h))] = r.choice([71, 103, 32, 58, 47, 64, 96, 255, 128, 1])
            ev.append({"op": "hex", "s": h, "n": max(0, r.choice([len(h) // 2, (len(h) + 1) // 2, (len(h) + 1) // 2 - 1, len(h), 0]))})
        g.append(({"m": 0}, ev))
    g.append(({"m": 0}, [{"op": "hex", "s": [x, y], "n": 1} for x in range(1, 256) for y in (48, 102)] + [{"op": "hex", "s": [70, x], "n": 1} for x in range(1, 256)]))
    g.append(({"m": 1}, [e for x in range(256) if x != 61 for e in ({"op": "dblk", "s": [65, x, 66, x, x]}, {"op": "dinit"})]))
    g.append(({"m": 0}, [e for x in range(256) for e in ({"op": "eblk", "s": [x, 255 - x, x ^ 85, x]}, {"op": "efin"})]))
    c.conform("CodecF1", exe, g, F, CFG, k, "seeded blocks, buffer sizes around the exact bound, every byte value")
    if c.viol: return
    g = []
    for n in lengths(c):
        s = [r.randint(0, 255) for _ in range(n)]; t = list(base64.b64encode(bytes(s))); h = [r.choice(b"0123456789abcdefABCDEF") for _ in range(n)]
        need = len(t) + n // 54 + 2
        ev = [{"op": "ebuf", "s": s, "n": r.choice([2 * n + 6, need])}, {"op": "hex", "s": h, "n": r.choice([(n + 1) // 2, n])}, {"op": "hex", "s": h, "n": (n + 1) // 2 - r.choice([1, 256 if n > 600 else 1])}]
        if n < 5100: ev += [{"op": "dbuf", "s": t, "n": len(t)}, {"op": "eblk", "s": s}, {"op": "efin"}]
        g.append(({"m": 0}, ev))
        if n > 2100: s = s[:2100]; t = list(base64.b64encode(bytes(s)))
        g.append(({"m": 1}, [{"op": "dblk", "s": t}, {"op": "dinit"}]))
    c.conform("CodecF1", exe, g, F, CFG, k, "long blocks", timeout=600)
