from mods.textcommon import *
F = {"all": ["mask", "fail"], "one": ["name", "mask", "fail"], "host": ["name", "mask", "g", "rc", "er", "fail"], "text": ["fam", "b", "cap"]}
def check(c):
    T = c.thorough; r = c.rng
    exe = c.build("addr", ["addr.c", "@src/c_resolve.c", "@src/strcopy.c"],
                  libs=["-Wl," + ",".join("--wrap=" + w for w in "getifaddrs freeifaddrs ioctl if_nametoindex getaddrinfo freeaddrinfo".split())])
    def K(cf, n, m, a): return "CONSTANTS CfgSet <- %s\n Names <- %s\n Masks <- %s\n Answers <- %s\n" % (cf, n, m, a)
    k0 = K("FewV", "OneName", "Mask2", "NoA")
    sc = c.explore("AddrF1", K("FewV", "NamesV", "MasksV", "AnswersV"), 1, tree=True)
    c.conform("AddrF1", exe, batch(sc, 12), F, ["t"], k0, "every name, kind and answer")
    if c.viol: return
    sc = c.explore("AddrF1", K("CfgsV", "OneName", "MasksV" if T else "Mask2", "NoA"), 1, tree=True)
    c.conform("AddrF1", exe, batch(sc, 12), F, ["t"], k0, "every few interfaces", timeout=400)
    if c.viol: return
    sc = []
    for fam, ln in ((2, 4), (10, 16), (17, 6), (0, 0), (1, 0), (99, 0)):
        for _ in range(60 if T else 12):
            b = [r.choice([0, 0, 1, 9, 10, 99, 100, 255, r.randint(0, 255)]) for _ in range(ln)]
            sc.append(({"t": [], "ifs": []}, [{"op": "text", "fam": fam, "b": b, "cap": k} for k in [64, 46, 18, 17, 16, 15, 12, r.randint(1, 48), 1, 2]]))
    c.conform("AddrF1", exe, sc, F, ["t"], k0, "texts and room for them")
    if c.viol: return
    sc = []
    for _ in range(1000 if T else 120):
        nms = [rstr(r, [103, 104, 105], r.randint(1, 15)) for _ in range(r.choice([1, 2, 5, 20]))]; ifs = []; t = []
        for _ in range(r.choice([1, 3, 10, 60])):
            x = {"nm": r.choice(nms), "fam": r.choice([0, 2, 2, 10, 17]), "a": r.randint(0, 255), "fl": r.randint(0, 70000)}
            ifs.append(x); t += [len(x["nm"])] + x["nm"] + [x["fam"], x["a"], x["fl"]]
        ev = []
        for _ in range(8):
            n = r.choice([r.choice(nms), r.choice(nms) + [97], r.choice(nms)[:-1] + [120], [104, 111, 115, 116], [49, 50, 55, 46, 48, 46, 48, 46, 49], r.choice(nms) + [120] * 20])
            m = r.randint(0, 7); fa = r.choice([0, 0, 0, 0, 12, 24]); rc = r.choice([0, 0, 0, -2, -3, -8, -11])
            k = r.choice(["all", "one", "host"]); e = {"op": k, "mask": m, "fail": fa}
            if k != "all": e["name"] = n
            if k == "host": e.update(g=[y for _ in range(r.randint(0, 9)) for y in (r.choice([2, 10]), r.randint(0, 255))] if rc == 0 else [], rc=rc, er=r.choice([0, 2, 11]) if rc != -11 else 5)
            ev.append(e)
        sc.append(({"t": t, "ifs": ifs}, ev))
    c.conform("AddrF1", exe, sc, F, ["t"], k0, "seeded systems", timeout=400)
