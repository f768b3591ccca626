from mods.textcommon import *
F = {"buf": ["p", "t", "n"], "word": ["p", "t"], "unif": ["p", "t", "b"], "nofeed": ["p", "t", "n"], "fork": ["p", "t", "q"], "exit": ["p"]}
CFG = ["k"]
def check(c):
    w = "-Wl," + ",".join("--wrap=" + x for x in ("getentropy", "getpid", "getrandom"))
    exe = c.build("arcd", ["arcd.c", "@src/arc4random.c"], libs=(w, "-lpthread")); T = c.thorough; r = c.rng
    def K(sizes, thr, procs, bounds="{}"): return "CONSTANTS Budget = 2048\n W = 8\n Sizes = {%s}\n Threads = {%s}\n MaxProcs = %d\n Bounds = %s\n MaxSeen = 0\n" % (",".join(map(str, sizes)), thr, procs, bounds)
    k0 = K([], "0,1,2", 9)
    for sz, thr, pr, ln in (((24,), "0", 3, 6), ((16,), "0,1", 2, 4), ((0, 1, 1023, 1025, 2047, 2049), "0", 1, 3)):
        k = K(sz, thr, pr)
        c.conform("ArcF", exe, c.explore("ArcF", k, ln, tree=False), F, CFG, k0, "streams, forks, process ids %s" % thr)
        if c.viol: return
    k = K((16,), "0", 3)
    c.conform("ArcF", exe, c.explore("ArcF", k, 5 if T else 4, tree=True), F, CFG, k0, "every sequence of requests, forks and exits", shards=8)
    if c.viol: return
    sc = []
    for i in range(400 if T else 50):
        live = [1]; dead = []; n = 1; ev = []; tot = 0; pidof = {1: 1}
        while len(ev) < 60 and tot < 9000:
            p = r.choice(live); t = r.choice([0, 0, 1, 2]); z = r.random()
            if z < .5:
                m = r.choice([0, 1, 3, 8, 16, 40, 64, 200, 983, 984, 985, r.randint(0, 300), r.randint(0, 1200)]); 
                if r.random() < .12: m = r.choice([1023, 1024, 2047, 2048, 2049, 3000, 4096, 5000])
                ev.append({"op": "buf", "p": p, "t": t, "n": m}); tot += m
            elif z < .6: ev.append({"op": "word", "p": p, "t": t}); tot += 4
            elif z < .72:
                b = r.choice([0, 1, 2, 3, 5, 7, 100, 255, 256, 1 << 31, (1 << 31) + 1, (1 << 32) - 1, r.getrandbits(32), r.getrandbits(r.randint(1, 32))])
                ev.append({"op": "unif", "p": p, "t": t, "b": [b >> 16, b & 65535]})
            elif z < .78: ev.append({"op": "nofeed", "p": p, "t": t, "n": r.choice([1, 8, 1500])})
            elif z < .92 and n < 6:
                q = [d for d in dead if pidof[d] not in [pidof[x] for x in live]]
                q = r.choice(q) if q and r.random() < .6 else 0
                ev.append({"op": "fork", "p": p, "t": t, "q": q}); n += 1; live.append(n); pidof[n] = pidof[q] if q else n
                for x in ((p, t), (n, 0)):
                    if r.random() < .6: ev.append({"op": "buf", "p": x[0], "t": x[1], "n": 16}); tot += 16
            elif len(live) > 1: ev.append({"op": "exit", "p": p}); live.remove(p); dead.append(p)
        sc.append(({"k": 0}, ev))
    # heavy use: small requests up to and past the budget, several times over
    for m in (4, 61, 300, 700, 1024):
        sc.append(({"k": 0}, [{"op": "buf", "p": 1, "t": 0, "n": m} for _ in range(min(6500 // m, 400) + 1)]))
    for m in (2047, 2048, 2049, 4000, 12000): sc.append(({"k": 0}, [{"op": "buf", "p": 1, "t": 0, "n": x} for x in (8, m, 8, 8, 500, 700, 800)]))
    sc.append(({"k": 0}, [{"op": "word", "p": 1, "t": 0} for _ in range(1100)]))
    sc.append(({"k": 0}, [{"op": "unif", "p": 1, "t": 0, "b": [32768, 1]} for _ in range(700)]))
    for b in [2, 3, 4, 6, 10, 16, 17, 255] + [(1 << i) + d for i in range(8, 32) for d in (-1, 0, 1)]: sc.append(({"k": 0}, [{"op": "unif", "p": 1, "t": 0, "b": [b >> 16, b & 65535]} for _ in range(40 if T else 12)]))
    c.conform("ArcF", exe, sc, F, CFG, k0, "seeded histories of requests, threads, forks and recycled process ids", shards=8)
