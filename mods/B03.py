F = {"build": ["k"], "buildn": ["n"], "find": ["x"], "findn": []}
CFG = ["w", "km", "seed"]
def check(c):
    exe = c.build("xorf", ["xorf.c", "@src/hashtable/xorfilter.c"], libs=("-lm", "-lpthread")); T = c.thorough
    k = "CONSTANTS Keys = {0,1,2,3,4,5%s}\n Widths = {8,16}\n" % (",6,7" if T else "")
    sc = c.explore("XorF", k, 2)
    fn = [{"op": "find", "x": x} for x in range(8)]
    sc = {str(x[0]) + str(x[1][0]): (x[0], [x[1][0]] + fn + fn[:3]) for x in sc if x[1]}
    c.conform("XorF", exe, list(sc.values()), F, CFG, k, "every small key set")
    if c.viol: return
    r, g = c.rng, []
    for n in list(range(1, 60)) + [r.randint(60, 400) for _ in range(20)]:
        for w in (8, 16):
            ks = r.sample(range(10000), n)
            pr = ks + r.sample(range(10000), 20)
            g.append(({"w": w, "km": r.randint(0, 2), "seed": r.randint(1, 1 << 30)}, [{"op": "build", "k": ks}] + [{"op": "find", "x": x} for x in pr + pr[:9]]))
    c.conform("XorF", exe, g, F, CFG, k, "random key sets of every size")
    if c.viol: return
    g = []
    for n in list(range(1, 300 if not T else 3000)) + [1000, 5000, 20000, 65535, 65537, 70000] + ([100000, 500000] if T else []):
        for w in (8, 16):
            g.append(({"w": w, "km": n % 3, "seed": n}, [{"op": "buildn", "n": n}, {"op": "findn"}]))
    c.conform("XorF", exe, g, F, CFG, k, "sizes")
