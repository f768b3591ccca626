from mods.textcommon import *
F = {"seed": ["a", "b"], "first": ["w"], "next": ["n"]}
CFG = ["g"]
GENS = ["split", "xs64", "xs128", "xs1024", "xoro", "quad", "trio", "duo"]
limbs = lambda v: [v >> 48 & 65535, v >> 32 & 65535, v >> 16 & 65535, v & 65535]
def check(c):
    exe = c.build("rand", ["rand.c", "@src/prng/xorshift.c", "@src/prng/xoroshiro.c", "@src/prng/romu-rand.c", "@src/prng/frand.c"], libs=["-Wl,--wrap=getentropy"])
    T = c.thorough; r = c.rng
    K = lambda gens, skips: "CONSTANTS Gens = {%s}\n Seeds <- SeedsV\n Skips = {%s}\n" % (",".join('"%s"' % g for g in gens), skips)
    k0 = K(GENS + ["frand"], "1")
    sc = c.explore("RandF2", K(GENS, "1,2,17"), 3 if T else 2, tree=True)
    c.conform("RandF1", exe, sc, F, CFG, k0, "every short history of seeding and drawing")
    if c.viol: return
    sc = []
    for g in GENS:
        for i in range(60 if T else 12):
            def sd():
                z = r.random()
                return limbs(0 if z < .1 else 1 << r.randint(0, 63) if z < .3 else (1 << 64) - 1 - (1 << r.randint(0, 63)) if z < .4 else r.getrandbits(64))
            ev = []
            for q in range(3 if g != "xs1024" else 2):
                ev.append({"op": "seed", "a": sd(), "b": sd()})
                for z in range(40 if g == "xs1024" else 24): ev.append({"op": "next", "n": 1})
                ev.append({"op": "next", "n": r.choice([2, 16, 17, 64, 200])})
            sc.append(({"g": g}, ev))
    c.conform("RandF1", exe, sc, F, CFG, k0, "seeded streams")
    for i in range(4 if T else 2):
        if c.viol: return
        w = [1, (1 << 64) - 1, r.getrandbits(64), 1 << 63][i] if T else r.getrandbits(64)
        c.conform("RandF1", exe, [({"g": "frand"}, [{"op": "first", "w": limbs(w)}] + [{"op": "next", "n": 1}] * 400)], F, CFG, k0, "self-seeded fractions")
