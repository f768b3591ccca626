from mods.textcommon import *
F = {"load": ["d"], "close": [], "sec": ["p"], "sub": ["from", "p"], "get": ["p"], "sget": ["from", "p"], "dump": [], "int": ["s"], "uint": ["s"], "bool": ["s"]}
CFG = ["k"]
def check(c):
    exe = c.build("conf", ["conf.c", "@src/configfile.c", "@src/gstring.c", "@src/strsplit.c", "@src/strtrim.c", "@src/strunquote.c", "@src/parse-ip.c", "@src/strcopy.c"],
                  libs=["-Wl,--wrap=error", "-Wl,--wrap=fopen", "-Wl,--wrap=fclose", "-lpthread"])
    T = c.thorough; r = c.rng
    def K(kinds, alpha="10", ml=0, lines=0, pa="97,98,47", pm=2, na="48", nm=0):
        return ("CONSTANTS Files <- FilesV\n Paths <- PathsV\n Nums <- NumsV\n Kinds = {%s}\n Alpha = {%s}\n MaxLen0 = %d\n LineKinds <- %s\n MaxLines = %d\n PAlpha = {%s}\n PMax = %d\n NAlpha = {%s}\n NMax = %d\n"
                % (",".join('"%s"' % k for k in kinds), alpha, ml, "LineKindsV" if lines else "NoLines", lines, pa, pm, na, nm))
    k0 = K(["file", "num"])
    def full(sc):       # every file is dumped and closed
        return [(g, ev + [{"op": "dump"}, {"op": "close"}]) for g, ev in sc]
    sc = full(c.explore("ConfF1", K(["file"], alpha="10,13,32,97,58", ml=4 if not T else 5), 1, tree=True))
    sc += full(c.explore("ConfF1", K(["file"], alpha="10,35,92,61,98,9", ml=4 if not T else 5), 1, tree=True))
    c.conform("ConfF1", exe, batch(sc, 40), F, CFG, k0, "every short text: line ends, comments, continuations")
    if c.viol: return
    sc = full(c.explore("ConfF1", K(["file"], lines=4 if not T else 5), 1, tree=True))
    c.conform("ConfF1", exe, batch(sc, 40), F, CFG, k0, "every sequence of lines: nesting")
    if c.viol: return
    sc = c.explore("ConfF1", K(["file"], lines=3, pa="97,98,47", pm=3 if not T else 4), 2)
    c.conform("ConfF1", exe, sc, F, CFG, k0, "every lookup in every small tree")
    if c.viol: return
    sc = batch(c.explore("ConfF1", K(["num"], na="48,49,45,120,107,32", nm=4 if not T else 5), 1, tree=True))
    c.conform("ConfF1", exe, sc, F, CFG, k0, "every short number")
    if c.viol: return
    ev = []
    for w in ("on", "On", "ON", "true", "TRUE", "tRuE", "1", "0", "off", "yes", "tru", "truee", "onn", "o", "11", ""):
        ev.append({"op": "bool", "s": list(w.encode())})
    big = [str(2 ** k + d) for k in (10, 31, 32, 53, 54, 60, 63, 64, 65) for d in (-1, 0, 1)]
    big += [hex(2 ** k + d) for k in (4, 31, 54, 63, 64) for d in (-1, 0)] + [oct(2 ** k + d).replace("0o", "0") for k in (3, 63, 64) for d in (-1, 0)]
    for b in big:
        for pre in ("", "-", "+", " "):
            for suf in ("", " ", "k", "K ", "M", "G", "T", "P", "E", "x", "b", "kB", "k x", "m", "\n", "Kx"):
                for o in ("int", "uint"): ev.append({"op": o, "s": list((pre + b + suf).encode())})
    for k in range(7):
        u = 1 << (10 * k)
        for z in (1, 2, 15, 16, 1023, 1024, (2 ** 64 - 1) // u, (2 ** 64 - 1) // u + 1, 2 ** 64 // u + 1, 3 * 2 ** 64 // u // 2, 7 * 2 ** 63 // u):
            ev.append({"op": "uint", "s": list(("%d%s" % (z, " KMGTPE"[k])).encode())})
    c.conform("ConfF1", exe, batch([({"k": "num"}, ev)], 60), F, CFG, k0, "numbers around every limit and suffix")
    if c.viol: return
    sc = []
    names = ["a", "b", "sub1", "sub1.1", "key", "x y", "é", "a", "a:b"]
    for i in range(1500 if T else 160):
        L, st, prev, paths = [], [(0, "")], None, [""]
        nl = r.choice(["\n", "\n", "\r\n", "\r"])
        for q in range(r.randint(1, 14)):
            if prev is not None and r.random() < .7:
                st.append((st[-1][0] + r.choice([1, 2, 4, 4, 8]), prev)); 
            elif len(st) > 1 and r.random() < .4: st = st[:r.randint(1, len(st))]
            col, par = st[-1]
            ind = " " * col
            if col % 4 == 0 and r.random() < .3: ind = "\t" * (col // 4)
            elif col >= 4 and r.random() < .2: ind = " " * r.randint(0, 3) + "\t" + " " * (col - 4)
            nm = r.choice(names); prev = None
            if r.random() < .45:
                t = nm + r.choice([":", ": ", ":  "]); prev = par + "/" + nm; paths.append(prev)
            else:
                t = nm + r.choice([" = ", "=", " ", "  ", " =", "= ", "\t"]) + r.choice(["v", "value with blanks", "a=b", "1", "x\\y", "# no comment", '"q"', ""]) + r.choice(["", " ", "\t"])
                paths.append(par + "/" + nm)
            if r.random() < .12:
                cut = r.randint(0, len(t)); t = t[:cut] + "\\" + nl + (nl if r.random() < .2 else "") + t[cut:]
            if t.endswith("\\"): t += "z"
            L.append(ind + t)
            if r.random() < .25: L.append(" " * r.randint(0, 6) + r.choice(["# c", "", "   ", "\t", "#a:", " # x=1"]))
        if r.random() < .1: L.insert(r.randint(0, len(L)), "%" * r.randint(100, 600) + " = " + "w" * r.randint(100, 900))
        d = nl.join(L) + r.choice(["", nl])
        ev = [{"op": "load", "d": list(d.encode())}, {"op": "dump"}]
        for p in r.sample(paths, min(6, len(paths))) + ["", "/", "a", "/a/b/"]:
            p = list(r.choice([p, p[1:], p + "/", p.replace("/", "//"), "/" + p, " " + p]).encode())
            ev += [{"op": "sec", "p": p}, {"op": "get", "p": p}, {"op": "sub", "from": r.randint(1, 4), "p": p}, {"op": "sget", "from": r.randint(1, 4), "p": p}]
        deep = list(("a/" * r.choice([30, 31, 32, 33, 40]) + "a").encode())
        ev += [{"op": "sec", "p": deep}, {"op": "get", "p": deep}, {"op": "close"}]
        sc.append(({"k": "file"}, ev))
    d = "".join(" " * i + "a:\n" for i in range(36)) + " " * 36 + "a = deep\n"
    ev = [{"op": "load", "d": list(d.encode())}]
    for k in range(28, 38):
        p = list(("a/" * k + "a").encode()); ev += [{"op": "sec", "p": p}, {"op": "get", "p": p}, {"op": "sget", "from": 7, "p": p}]
    sc.append(({"k": "file"}, ev + [{"op": "close"}]))
    c.conform("ConfF1", exe, sc, F, CFG, k0, "seeded files and lookups")
    if c.viol: return
    # long names, values, indentations, and many of each
    sc = []
    def file(d, paths):
        ev = [{"op": "load", "d": list(d.encode())}, {"op": "dump"}]
        for p in paths:
            p = list(p.encode()); ev += [{"op": "sec", "p": p}, {"op": "get", "p": p}, {"op": "sub", "from": 1, "p": p}, {"op": "sget", "from": 2, "p": p}]
        sc.append(({"k": "file"}, ev + [{"op": "close"}]))
    for n in (255, 256, 257, 300, 1024, 4096, 5000) + ((65535, 65536, 65537, 70000) if T else (65537, 70000)):
        v = "".join(r.choice("abc =:#x") for _ in range(n)).strip().ljust(n, "z"); k = "k" * n
        file("s:\n  key = %s\n  k2 = 1\nafter = 2\n" % v, ["/s/key", "/s/k2", "after"])
        file("%s = 1\n%s:\n  a = 2\nb = 3\n" % (k, k + "q"), [k, "/" + k, k + "q", k + "q/a", "b"])
        file("s:\n%sa = 1\n%sb:\n%sc = 2\nd = 4\n" % (" " * n, " " * n, " " * (n + 256)), ["s/a", "s/b", "s/b/c", "d"])
        file("s:\n%sa = 1%s\n%s\n%s# comment\n%sb = 2\n" % ("\t" * (n // 4), " " * n, " " * n, "\t" * n, " " * (n // 4 * 4)), ["s/a", "s/b"])
        file("#%s\na = 1\\\n%s\\\n\\\n23\nb = 4\n" % ("x" * n, "y" * n), ["a", "b"])
    for n in (130, 257, 300) + ((1000,) if T else ()):
        file("".join("k%d = v%d\n" % (i, i) for i in range(n)) + "s:\n  z = 1\n", ["k0", "k%d" % (n - 1), "k255", "k256", "s/z"])
        file("".join("s%d:\n  k = v%d\n" % (i, i) for i in range(n)) + "k = 0\n", ["s0/k", "s%d/k" % (n - 1), "/s255", "s256/k", "k"])
        file("".join(" " * i + "a:\n" for i in range(n)) + " " * n + "a = deep\nb = 1\n", ["a/a/a", "b", "/".join("a" * 31)])
    c.conform("ConfF1", exe, sc, F, CFG, k0, "long and many names, values and indentations")
