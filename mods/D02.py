from mods.textcommon import *
F = {"ustr": ["id", "n"], "lstr": ["id", "n"], "uparse": ["s", "n"], "lparse": ["s", "n"], "ugen": ["n", "f"], "lgen": ["ms", "us", "n", "f"]}
CFG = ["k"]
B32 = "0123456789ABCDEFGHJKMNPQRSTVWXYZ"
def check(c):
    w = "-Wl," + ",".join("--wrap=" + x for x in ("getentropy", "getrandom", "gettimeofday", "clock_gettime", "time"))
    exe = c.build("idd", ["idd.c", "@src/uuid.c", "@src/ulid.c", "@src/uuid2str.c"], libs=(w,)); T = c.thorough; r = c.rng
    k = "CONSTANTS Ids <- IdsV\n UTexts <- UTextsV\n LTexts <- LTextsV\n Times <- TimesV\n"
    c.conform("IdF1", exe, batch(c.explore("IdF2", k, 1, tree=True)), F, CFG, k, "every identifier, text and time of the model")
    if c.viol: return
    tk = k.replace("Ids <- IdsV", "Ids = {}").replace("UTexts <- UTextsV", "UTexts = {}").replace("LTexts <- LTextsV", "LTexts = {}")
    c.conform("IdF1", exe, c.explore("IdF1", tk, 2, tree=True), F, CFG, tk, "every pair of generation times")
    if c.viol: return
    ev = []
    for _ in range(15000 if T else 1500):
        q = [r.choice([0, 255, 1 << r.randint(0, 7), r.randint(0, 255), r.randint(0, 255)]) for _ in range(16)]
        ev.append({"op": "ustr", "id": q, "n": r.choice([37, 37, 64, 36, 0])}); ev.append({"op": "lstr", "id": q, "n": r.choice([27, 27, 64, 26, 0])})
        h = bytes(q).hex(); u = list((h[:8] + "-" + h[8:12] + "-" + h[12:16] + "-" + h[16:20] + "-" + h[20:]).encode())
        if r.random() < .5: u = [x - 32 if 97 <= x <= 122 and r.random() < .5 else x for x in u]
        z = r.random()
        if z < .3: u[r.randrange(36)] = r.choice([45, 48, 97, 103, 64, 96, 71, 58, 47, 255, 32, 1])
        elif z < .4: u = list(h.encode()); [u.insert(r.randint(0, len(u)), 45) for _ in range(4)]
        elif z < .5: u = [r.choice(b"0123456789abcdefABCDEF-") for _ in range(r.choice([36, 36, 36, 35, 37, 32, 40]))]
        elif z < .55: u = [r.choice(b"0123456789abcdefABCDEF") for _ in range(36)]
        ev.append({"op": "uparse", "s": u, "n": r.choice([16, 16, 16, 32, 15, 0])})
        l = [ord(r.choice(B32[:8]))] + [ord(r.choice(B32 + B32.lower())) for _ in range(25)]
        z = r.random()
        if z < .3: l[r.randrange(26)] = r.choice([73, 76, 79, 85, 105, 117, 255, 128, 45, 47, 58, 64, 91, 96, 123, 1])
        elif z < .4: l[0] = ord(r.choice(B32))
        elif z < .5: l = l[:r.randint(0, 26)] + [48] * r.choice([0, 1, 2])
        ev.append({"op": "lparse", "s": l, "n": r.choice([16, 16, 16, 32, 15, 0])})
        ev.append({"op": "ugen", "n": r.choice([16, 16, 20, 15, 1, 0]), "f": int(r.random() < .1)})
        m = r.choice([r.randint(0, (1 << 48) - 1), r.randint(0, 1 << 41), 1700000000000 + r.randint(0, 300), (1 << 48) - 1, 1 << r.randint(0, 47)])
        ev.append({"op": "lgen", "ms": [m >> 32, m >> 16 & 65535, m & 65535], "us": r.choice([0, 999, r.randint(0, 999)]), "n": r.choice([16, 16, 32, 15]), "f": r.choice([0, 0, 0, 0, 0, 0, 1, 2])})
    ev += [{"op": "uparse", "s": [x if i == p else 48 for i in range(36)] if p not in (8, 13, 18, 23) else [45] * 36, "n": 16} for x in range(1, 256) for p in (0, 35)]
    can = list(b"00000000-0000-0000-0000-000000000000"); lc = [48] * 26
    ev += [{"op": "uparse", "s": can[:p] + [x] + can[p+1:], "n": 16} for x in range(1, 256) for p in (0, 7, 9, 35)]
    ev += [{"op": "lparse", "s": lc[:p] + [x] + lc[p+1:], "n": 16} for x in range(1, 256) for p in (range(26) if T else (0, 1, 9, 17, 25))]
    c.conform("IdF1", exe, batch([({"k": 0}, ev)], 60), F, CFG, k, "seeded identifiers, texts and times, every character")
