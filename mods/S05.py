from mods.textcommon import *
F = {"open": ["flags", "fail"], "map": ["off", "n", "fail"], "all": ["fail"], "far": ["k"], "write": ["id", "off", "v"], "read": ["id"], "unmap": ["id"],
     "close": [], "lock": ["id", "off", "n", "fail"], "unlock": ["id", "off", "n", "fail"]}
CFG = ["n", "at", "v"]
def check(c):
    T = c.thorough; r = c.rng
    exe = c.build("mapf", ["mapf.cpp", "@src/posix/mmap.cpp", "@src/posix/syserror.cpp", "@src/sysexception.cpp"],
                  libs=["-Wl," + ",".join("--wrap=" + w for w in "open open64 __open_2 fstat ftruncate mmap munmap mlock munlock".split())])
    def K(cfg, fl, fa, sz, of): return "CONSTANTS CfgSet <- %s\n Flags = {%s}\n Fails = {%s}\n Sizes = {%s}\n Offs = {%s}\n Pg = 4096\n" % (cfg, fl, fa, sz, of)
    k0 = K("OneV", "0", "0", "1", "0")
    sc = c.explore("MapF1", K("SmallV", "0, 1, 6, 7", "0, 1, 2", "0, 904, 4096, 5000, 8192", "0, 100, 4096"), 3)
    c.conform("MapF1", exe, sc, F, CFG, k0, "every request on small files", timeout=400)
    if c.viol: return
    sc = c.explore("MapF1", K("OneV", "6, 7", "0", "904, 5000", "0, 4096"), 5 if T else 4, tree=True)
    c.conform("MapF1", exe, sc, F, CFG, k0, "every short history", timeout=800)
    if c.viol: return
    sc = []
    for _ in range(1500 if T else 150):
        n = r.choice([-1, 0, 1, 4095, 4096, 4097, 10000, 40000]); at = sorted(r.sample(range(max(n, 0)), min(max(n, 0), r.randint(0, 6))))
        cfg = {"n": n, "at": at, "v": [r.randint(1, 255) for _ in at]}; ev = []; s = None; live = {}; ids = 0
        for _ in range(r.randint(4, 40)):
            if s is None:
                fl = r.choice([0, 1, 2, 3, 6, 7, 7, 7, 4, 5]); fa = r.choice([0, 0, 0, 1, 2]); ev.append({"op": "open", "flags": fl, "fail": fa})
                if n >= 0 and not fa: s = fl; live = {}
                continue
            k = r.random()
            if k < .35 or not live:
                if live and r.random() < .3: off, m = r.choice(list(live.values())); off += r.choice([0, 0, 4096]); m = max(0, m + r.choice([0, 0, 1, -1]))
                else: off, m = r.choice([0, 0, 4096, 8192, 36864, 1, 4095]), r.choice([1, 100, 4095, 4096, 4097, 9000, max(n, 0), 0])
                allf = r.random() < .15; fa = r.choice([0] * 6 + [1, 2])
                if allf: off, m = 0, n
                same = [i for i, x in live.items() if x == (off, m)]
                ev.append({"op": "all", "fail": fa} if allf else {"op": "map", "off": off, "n": m, "fail": fa})
                if same: continue
                if off + m > n:
                    if not s & 1 or not s & 2 or fa == 2: continue
                    if m == 0 or off % 4096 or fa == 1: ev.pop(); continue     # whether the file grows then is open
                    n = off + m
                if m == 0 or off % 4096 or fa == 1: continue
                ids += 1; live[ids] = (off, m)
            elif k < .6 and s & 6 == 6: i = r.choice(list(live)); ev.append({"op": "write", "id": i, "off": r.randrange(live[i][1]), "v": r.choice([0, r.randint(1, 255)])})
            elif k < .78: ev.append({"op": "read", "id": r.choice(list(live))})
            elif k < .88: i = r.choice(list(live) + [0]); ev.append({"op": "unmap", "id": i}); live.pop(i, 0)
            elif k < .92: ev.append({"op": "far", "k": r.randint(0, 3)})
            elif k < .96: i = r.choice(list(live)); ev.append({"op": r.choice(["lock", "unlock"]), "id": i, "off": r.randrange(live[i][1]), "n": r.choice([1, 4096, 5000]), "fail": r.choice([0, 0, 1])})
            else: ev.append({"op": "close"}); s = None
        sc.append((cfg, ev))
    c.conform("MapF1", exe, sc, F, CFG, k0, "seeded histories", timeout=800)
