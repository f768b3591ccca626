import os
from mods.textcommon import *
F = {"set": ["i"], "kids": ["n"], "kset": ["name", "i"], "open": [], "read": [], "close": [], "ftw": [], "away": ["up"], "short": ["k"]}
CFG = ["tree", "roots", "log", "com", "noc", "nos", "dot", "xdev", "ord"]
o = lambda s: [x for x in s.encode()]
def q(s): return "<<" + ",".join(map(str, o(s))) + ">>"
SMALL = ["d a\nf a/x\nf a/y\nd a/b\nf a/b/z\nd c\nl a/l>c\nl k>a", "d a\nd a/b\nl a/b/up>a\nl a/b/nil>zz\nl e>c\nd c", "f a\np b\nl c>a\nd d\nf d/q\nl d/e>d\nl d/f>d/e"]
def can_drop():
    if os.geteuid(): return False
    p = os.fork()
    if p == 0:
        try: os.seteuid(65534); os._exit(0)
        except OSError: os._exit(1)
    return os.waitpid(p, 0)[1] == 0
def tree(r, perms):
    ents = [("d", "")]; out = []
    for i in range(r.choice([0, 2, 5, 9, 14, 20])):
        d = r.choice([e for e in ents if e[0] in "dux"])[1]
        n = r.choice(["a", "b", "zz", "a.b", ".h", "A", "x y", "n%d" % i, "q" * r.choice([1, 40, 200])])
        p = (d + "/" + n).strip("/")
        if any(e[1] == p for e in ents): continue
        k = r.choice("dddfffpll" + ("ux" if perms else ""))
        if k == "l": g = r.choice([e[1] for e in ents if e[0] != "u" and e[1]] + ["none", "a", "b"]); out.append("l %s>%s" % (p, g))
        else: out.append("%s %s" % (k, p))
        ents.append((k, p))
    return out, ents
def under(p, ents, ks): return any(e[0] in ks and e[1] and (p == e[1] or p.startswith(e[1] + "/")) for e in ents)
def check(c):
    T = c.thorough; r = c.rng
    exe = c.build("ftsd", ["ftsd.c", "@src/fts.c", ("@src/ftw.c", ["-Dftw=my_ftw", "-include", "sys/types.h"])], libs=["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free"])
    def K(roots, opts, orders, ins, kid, trees="V"): return "CONSTANTS Trees <- Trees%s\n Roots <- Roots%s\n Opts <- Opts%s\n Orders = {%s}\n SetIns = {%s}\n KidOps = {%s}\n" % (trees, roots, opts, orders, ins, kid)
    k0 = K("S", "S", "0", "", "")
    # complete walks of small trees under every option
    k = K("V" if T else "S", "V", "1,2", "", "")
    c.conform("WalkF1", exe, c.explore("WalkF1", k, 40, tree=False), F, CFG, k0, "whole walks, every option", shards=8)
    if c.viol: return
    # every instruction at every point
    for roots, opts, ins, kid in (("S", "F", "4", ""), ("S", "F", "2", ""), ("S", "F", "1", ""), ("A", "S", "4", "0,1"), ("A", "F" if T else "S", "2,4", "0")):
        k = K(roots, opts, "1", ins, kid)
        c.conform("WalkF1", exe, c.explore("WalkF1", k, 30 if T else 10 if "," in ins else 12, tree=False), F, CFG, k0, "instructions %s, children %s" % (ins, kid), shards=8)
        if c.viol: return
    sc = []
    perms = can_drop()
    for z in range(4000 if T else 160):
        t, ents = tree(r, perms and r.random() < .25)
        has = any(e[0] in "ux" for e in ents)
        ok = [e[1] for e in ents if e[0] in "dfp" and e[1] and not under(e[1], ents, "ux")] + ["."]
        dirs = [e[1] for e in ents if e[0] == "d" and e[1] and not under(e[1], ents, "ux")]
        lk = [e[1] for e in ents if e[0] == "l" and not under(e[1], ents, "ux")]
        roots = []
        for _ in range(r.choice([1, 1, 1, 2, 3, 0])):
            x = r.choice(ok + lk * 2)
            if r.random() < .2: x = "./" + x
            if x in dirs and r.random() < .3: x += "/"
            if r.random() < .2: x = "/" + x
            if r.random() < .04: x = "missing"
            roots.append(x)
        lg = r.random() < .35
        cfg = {"tree": o("\n".join(t)), "roots": o("\n".join(roots)), "log": int(lg), "com": r.randint(0, 1), "noc": r.randint(0, 1), "nos": int(not has and r.random() < .25), "dot": int(r.random() < .2), "xdev": int(r.random() < .2), "ord": r.choice([0, 1, 1, 2])}
        ev = [{"op": "open"}]; instr = r.random() < .6
        n = r.choice([1, 5, 20, 60, 90]); kids = False
        for _ in range(n):
            if instr:
                y = r.random()
                if y < .12 and _ > 0: ev.append({"op": "set", "i": r.choice([2, 2, 4, 4, 3])})
                elif y < .14 and _ > 0 and cfg["com"] == 0: ev.append({"op": "set", "i": 1}) if not any(q.get("i") == 2 for q in ev) else None
                elif y < .24 and not has:
                    ev.append({"op": "kids", "n": r.choice([0, 0, 1])})
            ev.append({"op": "read"})
            if _ > 0 and not has and r.random() < .01: ev.append({"op": "away", "up": r.randint(0, 2)})
        if r.random() < .8: ev.append({"op": "close"})
        sc.append((cfg, ev))
    for z in range(1000 if T else 60):
        t, ents = tree(r, perms and r.random() < .2); ok = [e[1] for e in ents if e[0] in "df" and e[1] and not under(e[1], ents, "ux")]
        if any(e[0] == "x" for e in ents): continue
        sc.append(({"tree": o("\n".join(t)), "roots": o(r.choice(ok + ["."])), "log": 0, "com": 0, "noc": 0, "nos": 0, "dot": 0, "xdev": 0, "ord": 0}, [{"op": "ftw"}]))
    lng = []
    for d, n in ((20, 230), (18, 250), (40, 120), (16, 240)) if T else ((16, 252),):    # paths longer than the initial path buffer
        for noc in (0, 1):
            t = []; p = ""
            for i in range(d): p = (p + "/" + chr(97 + i % 26) * n).strip("/"); t += ["d " + p, "f " + p + "/" + "f" * (n // 2 + i), "f " + p + "/g"]
            if noc: t = [x for x in t if len(x) < 4000 or x.startswith("f") and len(x.rsplit("/", 1)[0]) < 4000]
            lng.append(({"tree": o("\n".join(t)), "roots": o("."), "log": 0, "com": 0, "noc": noc, "nos": 0, "dot": 0, "xdev": 0, "ord": 1}, [{"op": "open"}] + [{"op": "read"}] * (len(t) * 2 + 5) + [{"op": "close"}]))
    for i, x in enumerate(lng): sc.insert(i * len(sc) // len(lng), x)
    c.conform("WalkF1", exe, sc, F, CFG, k0, "seeded trees, options and instructions; long paths", shards=8)
    if c.viol: return
    # memory running out at every allocation of the opening, and of any call after it
    sc = []; R = {"op": "read"}; C = {"op": "close"}
    wide = "d w\n" + "\n".join("f w/n%02d" % i for i in range(45)); deep = []
    p = ""
    for i in range(5): p = (p + "/" + chr(97 + i) * 250).strip("/"); deep.append("d " + p)
    for t in SMALL[: 3 if T else 1] + [wide, "\n".join(deep)]:
        names = [x[2:].split(">")[0] for x in t.split("\n") if "/" not in x]
        for lg in (0, 1):
            for noc in (0, 1):
                for od in (0, 1):
                    cfg = {"tree": o(t), "roots": o("\n".join(names) if lg or noc else "."), "log": lg, "com": 0, "noc": noc, "nos": 0, "dot": 0, "xdev": 0, "ord": od}
                    for k in range(14): sc.append((cfg, [{"op": "short", "k": k}, {"op": "open"}] + [R] * 3 + [C]))
                    for j in ((1, 2, 3, 4, 6, 8) if T else (1, 2, 4)):
                        for k in list(range(8)) + [40, 41, 43, 44, 45, 46]:
                            if k < 8 or t is wide: sc.append((cfg, [{"op": "open"}] + [R] * j + [{"op": "short", "k": k}] + [R] * 3 + [C]))
                        for k in range(3): sc.append((cfg, [{"op": "open"}] + [R] * j + [{"op": "short", "k": k}, {"op": "kids", "n": k % 2}, {"op": "short", "k": 0}, R, R, C]))
    c.conform("WalkF1", exe, sc, F, CFG, k0, "memory running out", shards=8)
    if c.viol: return
    # hundreds of entries in a directory, hundreds of levels
    sc = []
    for noc, ord_, lg in ((0, 1, 0), (1, 0, 0), (0, 2, 1)):
        for n in (300, 600) if not T else (130, 257, 300, 700):
            t = ["d w"] + ["%s w/%s%03d" % ("fd"[i % 50 == 0], "ab"[i % 2], i) for i in range(n)] + ["f w/a000/q"]
            sc.append(({"tree": o("\n".join(t)), "roots": o("w"), "log": lg, "com": 0, "noc": noc, "nos": 0, "dot": 0, "xdev": 0, "ord": ord_}, [{"op": "open"}] + [R] * (n + n // 40 + 12) + [C]))
        for n in (140, 270) if T else ((140, 270)):
            t = []; p = "e"
            for i in range(n): t.append("d " + p); p += "/" + "kl"[i % 2]
            sc.append(({"tree": o("\n".join(t)), "roots": o("e"), "log": lg, "com": 0, "noc": noc, "nos": 0, "dot": 0, "xdev": 0, "ord": ord_}, [{"op": "open"}] + [R] * (2 * n + 4) + [C]))
    c.conform("WalkF1", exe, sc, F, CFG, k0, "wide and deep trees", shards=8)
