from mods.textcommon import *
F = {"err": ["n", "p"], "made": ["n", "p"], "last": ["n", "p"], "exc": ["n", "p"], "excf": ["n", "p", "m"], "msg": ["m"], "intr": ["m"], "died": ["m"]}
def check(c):
    T = c.thorough; r = c.rng
    exe = c.build("errtxt", ["errtxt.cpp", "@src/posix/syserror.cpp", "@src/sysexception.cpp"])
    def K(n, t): return "CONSTANTS Nums <- %s\n Texts <- %s\n" % (n, t)
    sc = c.explore("ErrTxtF1", K("FewV", "TextsV"), 1, tree=True)
    c.conform("ErrTxtF1", exe, batch(sc, 12), F, ["x"], K("FewV", "TextsV"), "texts of every length class")
    if c.viol: return
    sc = [({"x": 0}, [{"op": o, "n": n, "p": p} for o in ("err", "made", "last", "exc") for p in ([], [120])]) for n in list(range(0, 200)) + [512, 524, 4095, 100000, 2147483647]]
    c.conform("ErrTxtF1", exe, sc, F, ["x"], K("FewV", "TextsV"), "every error number")
    if c.viol: return
    any_ = [x for x in range(1, 256)]; sc = []
    for _ in range(1500 if T else 200):
        ln = lambda: r.choice([0, 1, 5, 80, r.randint(980, 1040), r.randint(900, 1030), r.randint(1, 4000)])
        ev = []
        for _ in range(6):
            o = r.choice(list(F)); e = {"op": o}
            for k in F[o]: e[k] = r.randint(0, 135) if k == "n" else rstr(r, any_, ln())
            ev.append(e)
        sc.append(({"x": 0}, ev))
    c.conform("ErrTxtF1", exe, sc, F, ["x"], K("FewV", "TextsV"), "seeded texts", timeout=800)
