from mods.textcommon import *
F = {"put": ["i", "id", "mb", "extra"], "dir": ["i"], "del": ["i"], "rot": ["n", "k", "m"], "rots": ["n", "lim", "k", "m"]}
CFG = ["nm", "form"]
WR = ["rename", "renameat", "unlink", "unlinkat", "remove", "link", "stat", "lstat", "access"]
def check(c):
    exe = c.build("rotd", ["rotd.c", "@src/rotatefile.c"], libs=tuple("-Wl,--wrap=" + w for w in WR)); T = c.thorough; r = c.rng
    def K(idx, lim, faults="{0}", calls="{0}", names="{0}", forms="{0}", sizes="{<<0, 0>>}"):
        return "CONSTANTS Idx <- IdxV\n Limits = {%s}\n Faults = %s\n Calls = %s\n Names = %s\n Forms = %s\n Sizes <- SizesV\n" % (lim, faults, calls, names, forms)
    k0 = K("", "")
    k = K("", "1,2,3")
    c.conform("RotF1", exe, c.explore("RotF1", k, 6 if T else 5, tree=False), F, CFG, k0, "every subset of copies, every limit")
    if c.viol: return
    sc = []
    # every interruption or failure point of a rotation, for every subset of copies
    for n in (1, 2, 3, 4) if T else (1, 3):
        for sub in range(1 << (n + 2)):
            pre = [{"op": "put", "i": i - 1, "id": 100 - i, "mb": 0, "extra": 0} for i in range(n + 2) if sub >> i & 1]
            for m in (1, 3, 4) if not T else (1, 2, 3, 4):
                # the calls of a rotation: about 100 removals, then the renames
                pts = list(range(1, 112 + 2 * n)) if T else [1, 2, 50] + list(range(98, 108 + 2 * n))
                if not T and m != 1: pts = [2] + list(range(99, 106 + 2 * n, 2)) + [r.randint(100, 107)]
                if not T: pts = r.sample(pts, min(len(pts), 8))
                for kx in pts:
                    ev = pre + [{"op": "rot", "n": n, "k": kx, "m": m}]
                    if r.random() < .7: ev += [{"op": "rot", "n": n, "k": 0, "m": 0}]
                    sc.append(({"nm": 0, "form": 0}, ev))
    c.conform("RotF1", exe, sc, F, CFG, k0, "failures and interruptions at every call", shards=8)
    if c.viol: return
    sc = []
    for q in range(600 if T else 120):
        nm = r.randint(0, 3); ev = []; nid = 1; f = set()
        for _ in range(r.randint(3, 25)):
            z = r.random(); n = r.choice([1, 2, 3, 4, 5, 8, 12, 0])
            if z < .3: sz = r.choice([(0, 0), (0, 0), (1, 0), (1, 1), (0, 1048575), (2, 0), (2, 4096), (1, 1048575), (5, 7), (1, 256), (0, 65536), (1, 65536), (255, 1), (256, 0), (300, 9), (4096, 0), (4097, 65536), (65537, 0)]); i = r.choice([-1, -1, -1, r.randint(0, 6), r.randint(0, 30), n + 99, n + 100]); ev.append({"op": "put", "i": i, "id": nid, "mb": sz[0], "extra": sz[1]}); nid += 1
            elif z < .34: ev.append({"op": "dir", "i": 40 + len(ev)}) if r.random() < .3 else ev.append({"op": "del", "i": r.randint(-1, 5)})
            elif z < .75: ev.append({"op": "rot", "n": n, "k": r.choice([0, 0, 0, r.randint(1, 125)]), "m": r.randint(1, 4)})
            else: ev.append({"op": "rots", "n": n, "lim": r.choice([0, 1, 1, 2, 3, 3, r.choice([44, 255, 256, 257, 4095, 4096, 65536])]), "k": r.choice([0, 0, 0, r.randint(1, 125)]), "m": r.randint(1, 4)})
        sc.append(({"nm": nm, "form": r.randint(0, 2)}, ev))
    for i in range(-1, 5):      # something that is not a file in the way
        for n in (1, 2, 3, 5):
            sc.append(({"nm": 0, "form": 0}, [{"op": "put", "i": j, "id": 50 - j, "mb": 3, "extra": 0} for j in range(-1, 5) if j != i] + [{"op": "dir", "i": i}, {"op": "rots", "n": n, "lim": 1, "k": 0, "m": 0}, {"op": "rot", "n": n, "k": 0, "m": 0}]))
    for ln in list(range(4068, 4095)):    # names of copies that just fit or do not
        for n in (2, 12): sc.append(({"nm": 4, "form": ln}, [{"op": "put", "i": j, "id": 50 - j, "mb": 0, "extra": 0} for j in range(-1, 4)] + [{"op": "rot", "n": n, "k": 0, "m": 0}] * 2))
    for n in (20, 101, 300): sc.append(({"nm": 0, "form": 0}, sum([[{"op": "put", "i": -1, "id": j + 1, "mb": 0, "extra": 0}, {"op": "rot", "n": n, "k": 0, "m": 0}] for j in range(25)], [])))
    c.conform("RotF1", exe, sc, F, CFG, k0, "seeded histories, obstacles, long names", shards=8)
