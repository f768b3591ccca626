from mods.textcommon import *
F = {"bits": ["n", "st"], "cbits": ["n", "st"], "long": ["st"], "clong": ["st"]}
def check(c):
    T = c.thorough; r = c.rng
    exe = c.build("sysrand", ["sysrand.cpp", "@src/posix/sysrand.cpp", "@src/posix/syserror.cpp", "@src/sysexception.cpp"],
                  libs=["-Wl," + ",".join("--wrap=" + w for w in "open open64 __open_2 read __read_chk".split())])
    def K(n): return "CONSTANTS Lens <- LensV\n Steps <- StepsV\n MaxSteps = %d\n" % n
    sc = c.explore("SysRandF1", K(4 if T else 3), 1, tree=True)
    sc = [x for x in sc if not x[0]["open"]] + [x for x in sc if x[0]["open"]][:40]
    c.conform("SysRandF1", exe, batch(sc, 12), F, ["open"], K(1), "every way of arriving")
    if c.viol: return
    sc = []
    for _ in range(600 if T else 100):
        ev = []
        for _ in range(8):
            o = r.choice(list(F)); e = {"op": o, "st": [r.choice([1, 2, 3, 7, 100, -4, -4, -4, 1000] + ([-5, -11] if r.random() < .1 else [])) for _ in range(r.randint(0, 12))]}
            if "n" in F[o]: e["n"] = r.choice([0, 1, 8, 255, 256, r.randint(0, 3000)])
            ev.append(e)
        sc.append(({"open": 0}, ev))
    c.conform("SysRandF1", exe, sc, F, ["open"], K(1), "seeded histories", timeout=400)
    if c.viol: return
    sc = []
    for n in [256, 257, 300, 1000, 32767, 32768, 65535, 65536, 66001] + ([131072, 70000] if T else []):
        ev = [{"op": "bits", "n": n, "st": r.choice([[], [n - 1], [255, 256, -4, 300], [32768, -4, 1]])}, {"op": "cbits", "n": n, "st": r.choice([[], [n - 1, -4], [256, 1]])}, {"op": "long", "st": [3]}]
        sc.append(({"open": 0}, ev))
    c.conform("SysRandF1", exe, sc, F, ["open"], K(1), "long requests", timeout=400)
