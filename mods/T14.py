from mods.textcommon import *
F = {"long": ["d", "max", "how"], "short": ["d", "max", "how"]}
CFG = ["L", "o", "posix", "err"]
def check(c):
    exe = c.build("optlong", ["optlong.c", "@src/getopt_long.c"])
    T = c.thorough; r = c.rng
    def K(ws=0, mw=0, shorts="1,2,3,4,5,6", posix="0,1", ls="1,2", whats=("long",), maxes="1000"):
        return ("CONSTANTS CfgSet <- CfgSetV\n Lines <- LinesV\n Words <- WordsV\n WordSet = %d\n MaxWords = %d\n Shorts = {%s}\n Posix = {%s}\n Ls = {%s}\n Whats = {%s}\n Maxes = {%s}\n"
                % (ws, mw, shorts, posix, ls, ",".join('"%s"' % w for w in whats), maxes))
    k0 = K()
    sc = c.explore("OptF2", K(1, 3 if not T else 4, ls="1"), 1, tree=True)
    c.conform("OptF1", exe, batch(sc, 60), F, CFG, k0, "every short command line")
    if c.viol: return
    sc = c.explore("OptF2", K(2, 3 if not T else 4, shorts="1,4,6", posix="0"), 1, tree=True)
    c.conform("OptF1", exe, batch(sc, 60), F, CFG, k0, "long options and their abbreviations")
    if c.viol: return
    sc = c.explore("OptF1", K(3, 6 if not T else 7, shorts="1", posix="0", ls="2"), 1, tree=True)
    c.conform("OptF1", exe, batch(sc, 60), F, CFG, k0, "moving arguments behind the options")
    if c.viol: return
    shorts = ["ab:c::", "+ab:c::", "-ab:c::", ":ab:c::", "+:ab:", "-:a:b::c", "abW;", "a:b:c:d:e:", "", "+", "xyz"]
    words = ["-a", "-b", "-c", "-ab", "-ba", "-abc", "-aaa", "-b1", "-c2", "-z", "-", "--", "x", "y", "", "file name", "-W", "-Wfoo", "-Wx=3", "-a-", "-a:", "--foo", "--foobar", "--foobar=", "--foobar=v=w",
             "--foo=1", "--fob", "--fob=q", "--fo", "--f", "--x", "--x=", "--abc", "--abcd", "--ab", "--a", "--b", "--b=", "--zzz", "--=", "-=", "---", "--foo-", "a=b", "--xx"]
    sc = []
    for i in range(3000 if T else 500):
        ev = []
        so = r.choice(shorts)
        for q in range(8):
            n = r.choice([0, 1, 2, 3, 4, 6, 10, 40])
            ws = [r.choice(words) for _ in range(n)]
            # "--name" has no meaning for getopt without long options; -W of an empty word neither
            op = r.choice(["long", "long", "short"])
            if op == "short":
                ws = [w for w in ws if not (w.startswith("--") and len(w) > 2)]
                if "W;" in so: ws = [w for w in ws if "W" not in w]
            if "W;" in so and "" in ws: ws = [w for w in ws if w]
            ev.append({"op": op, "d": list("".join(w + "\0" for w in ws).encode()), "max": r.choice([1000, 1000, 1000, 0, 1, 2, 3]), "how": r.randint(0, 1)})
        sc.append(({"L": r.choice([1, 2]), "o": list(so.encode()), "posix": r.choice([0, 0, 0, 1]), "err": r.randint(0, 1)}, ev))
    c.conform("OptF1", exe, sc, F, CFG, k0, "seeded command lines")
    if c.viol: return
    # long arguments, clusters and command lines
    sc = []
    def line(ws, so="ab:c::", L=1, posix=0, op="long", how=0): sc.append(({"L": L, "o": list(so.encode()), "posix": posix, "err": 0}, [{"op": op, "d": list("".join(w + "\0" for w in ws).encode()), "max": 100000, "how": how}]))
    for n in (127, 128, 255, 256, 257, 300, 1000) + ((65535, 65536, 70000) if T else (65537,)):
        v = "".join(r.choice("abc=-x ") for _ in range(n))
        line(["-b" + v, "-c" + v, "y", "--foobar=" + v, v.replace("-", "q"), "-a", "--foobar", v, "-b", v])
        line(["--foob" + "q" * n, "-a", "--" + "x" * n, "--fob=" + "=" * n])
        if n < 2000:
            line(["-" + "a" * n + "b" + v, "x", "-" + "a" * n]); line(["-" + "ac"[n % 2] * n, "-a"], op="short", how=1)
            line(["w%d" % i if i % 3 else "-a" for i in range(n)] + ["-b", "z"], how=n % 2); line(["w%d" % i for i in range(n)] + ["-a"] * n, op="short")
            line(["w%d" % i if i % 5 else "-b" for i in range(n)], so="-ab:"); line(["-a"] * n + ["x"] + ["-a"] * 3, so="+ab:"); line(["x"] * n + ["--"] + ["-a"] * n)
    c.conform("OptF1", exe, sc, F, CFG, k0, "long arguments, clusters and command lines")
