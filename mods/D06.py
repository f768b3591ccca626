from mods.textcommon import *
F = {"hash": ["f", "d", "a", "b", "al"], "canon": ["a"], "init": ["a", "b"], "upd": ["d", "al"], "fin": []}
CFG = ["k"]
FNS = ["fnv32", "fnv64", "fast64", "fast32", "sip", "mm32", "mm128a", "mm128b", "hsieh", "yorikke", "city", "city128", "xx32", "xx64"]
limbs = lambda v: [v >> 48 & 65535, v >> 32 & 65535, v >> 16 & 65535, v & 65535]
def check(c):
    src = ["fnvhash", "fasthash", "siphash24", "murmur3_hash", "hsieh_hash", "yorrike", "cityhash", "xxhash"]
    exe = c.build("hashfn", ["hashfn.c"] + ["@src/hashfunc/%s.c" % s for s in src], flags=["-fno-sanitize=alignment,shift,pointer-overflow"])
    T = c.thorough; r = c.rng
    S = lambda l: ",".join(map(str, l))
    K = lambda lens, chunks, kinds, md: "CONSTANTS Fns = {%s}\n Lens = {%s}\n Chunks = {%s}\n Kinds = {%s}\n Seeds <- SeedsV\n MaxData = %d\n" % (
        ",".join('"%s"' % f for f in FNS), S(lens), S(chunks), ",".join('"%s"' % x for x in kinds), md)
    k0 = K([], [], ["none", "sip", "xx32", "xx64"], 0)
    sc = c.explore("HashFnF2", K(range(0, 300 if T else 140), [], ["none"], 0), 1, tree=True)
    c.conform("HashFnF1", exe, batch(sc, 40), F, CFG, k0, "every length, each alignment")
    if c.viol: return
    sc = c.explore("HashFnF1", K([], [0, 1, 7, 8, 9, 16, 31, 33] if not T else [0, 1, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64], ["sip", "xx32", "xx64"], 66 if not T else 100), 4 if not T else 5)
    c.conform("HashFnF1", exe, sc, F, CFG, k0, "every way to feed a stream")
    if c.viol: return
    def sd():
        z = r.random()
        return limbs(0 if z < .15 else 1 << r.randint(0, 63) if z < .3 else (1 << 64) - 1 if z < .4 else r.getrandbits(64))
    def data(n):
        z = r.random()
        return [r.choice([0, 255, 128]) for _ in range(n)] if z < .25 else [r.getrandbits(8) for _ in range(n)] if z < .9 else [255] * n
    sc = []
    for f in FNS:
        for q in range(30 if T else 5):
            sc.append(({"k": "none"}, [{"op": "hash", "f": f, "d": data(r.choice([r.randint(0, 20), r.randint(0, 70), r.randint(60, 300)])), "a": sd(), "b": sd(), "al": r.randint(0, 7)} for _ in range(12)]))
    sc.append(({"k": "none"}, [{"op": "canon", "a": sd()} for _ in range(60)]))
    for k in ("sip", "xx32", "xx64"):
        for q in range(60 if T else 12):
            ev = [{"op": "init", "a": sd(), "b": sd()}]; n = 0
            for z in range(14):
                m = r.choice([0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 31, 32, 33, r.randint(0, 60)]); n += m
                ev.append({"op": "upd", "d": data(m), "al": r.randint(0, 7)})
                if r.random() < .4: ev.append({"op": "fin"})
                if r.random() < .06: ev.append({"op": "init", "a": sd(), "b": sd()})
            sc.append(({"k": k}, ev + [{"op": "fin"}]))
    c.conform("HashFnF1", exe, sc, F, CFG, k0, "seeded inputs, seeds, alignments and splits")
    if c.viol: return
    # lengths past 8 and 16 bits
    sc = []
    for f in FNS:
        for n in lengths(c, 4, 1): sc.append(({"k": "none"}, [{"op": "hash", "f": f, "d": data(n), "a": sd(), "b": sd(), "al": r.randint(0, 7)}]))
    for k in ("sip", "xx32", "xx64"):
        for n in lengths(c, 4, 1):
            ev = [{"op": "init", "a": sd(), "b": sd()}, {"op": "upd", "d": data(r.randint(0, 40)), "al": 1}, {"op": "upd", "d": data(n), "al": r.randint(0, 7)}, {"op": "fin"}, {"op": "upd", "d": data(r.randint(0, 40)), "al": 1}, {"op": "fin"}]
            sc.append(({"k": k}, ev))
        sc.append(({"k": k}, [{"op": "init", "a": sd(), "b": sd()}] + [{"op": "upd", "d": data(r.choice([250, 260, 64])), "al": 0} for _ in range(270)] + [{"op": "fin"}]))
    c.conform("HashFnF1", exe, sc, F, CFG, k0, "long inputs", timeout=800)
