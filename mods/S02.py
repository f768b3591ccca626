from mods.textcommon import *
F = {"mk": ["s", "abs", "mode", "k", "m"], "file": ["p"], "dir": ["p"], "link": ["p", "q"]}
CFG = ["um"]
def check(c):
    exe = c.build("mkdd", ["mkdd.c", "@src/mkdirhier.c"], libs=tuple("-Wl,--wrap=" + w for w in ("mkdir", "mkdirat", "stat", "lstat"))); T = c.thorough; r = c.rng
    K = lambda modes, ums, ab: "CONSTANTS Paths <- PathsV\n Setups <- SetupsV\n Modes = {%s}\n Umasks = {%s}\n AbsForms = {%s}\n" % (modes, ums, ab)
    k0 = K("448", "0", "0").replace("PathsV", "PathsE")
    k = K("448", "0", "0,1")
    c.conform("MkdF1", exe, c.explore("MkdF1", k, 5 if T else 4, tree=False), F, CFG, k0, "every small tree and path shape", shards=8)
    if c.viol: return
    k = K("448", "0", "0")
    c.conform("MkdF1", exe, c.explore("MkdF1", k, 3 if T else 2, tree=True), F, CFG, k0, "every sequence of calls", shards=8)
    if c.viol: return
    o = lambda s: [x for x in s.encode()]
    sc = []
    for q in range(3000 if T else 500):
        um = r.choice([0, 0o22, 0o77, 0]); ev = []; tree = {}
        names = ["a", "b", "cc", "d.e", "..x", "...", "long" * 20]
        def p(): return "/".join(r.choice(names) for _ in range(r.randint(1, 5)))
        fresh = lambda: "u%d" % len(ev)
        for _ in range(r.randint(1, 9)):
            z = r.random()
            if z < .25:
                n = fresh(); names.append(n); w = r.choice(["file", "dir", "link"]); ev.append({"op": w, "p": o(n)}) if w != "link" else ev.append({"op": w, "p": o(n), "q": o(r.choice(names[7:] + ["nowhere"]))})
            else:
                s = p(); parts = s.split("/"); d = 0; out = []
                for x in parts:
                    out.append(x); d += 1
                    if r.random() < .15: out.append(".")
                    if r.random() < .12 and d > 1: out.append(".."); d -= 1
                s = "/".join(out)
                if r.random() < .3: i = s.find("/"); s = s.replace("/", "//", r.randint(1, 3))
                if r.random() < .3: s += r.choice(["/", "//", "/.", "/./", "/.//"])
                if r.random() < .2: s = "./" + s
                m = r.choice([0o700, 0o777, 0o755, 0o711])
                f = r.random() < .4
                ev.append({"op": "mk", "s": o(s), "abs": int(r.random() < .4), "mode": m, "k": r.randint(1, 4) if f else 0, "m": r.choice([1, 2, 3, 3, 4]) if f else 0})
                if r.random() < .3: ev.append({"op": "mk", "s": o(s), "abs": 0, "mode": 0o700, "k": 0, "m": 0})
        sc.append(({"um": um}, ev))
    for n in (4000, 4090, 4093, 4094, 4095, 4096, 4097, 5000, 9000):
        for t in ("x", "x/y", ""):
            s = "./" * 5000; s = s[:(n - len(t)) // 2 * 2] + t
            if len(s) < n: s = "/".join(["."] + [s[2:]]) if False else s.replace("./", ".//", 1)
            sc.append(({"um": 0}, [{"op": "mk", "s": o(s), "abs": 0, "mode": 0o700, "k": 0, "m": 0}]))
    c.conform("MkdF1", exe, sc, F, CFG, k0, "seeded trees, path shapes, failures and races", shards=8)
