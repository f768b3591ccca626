from mods.textcommon import *
F = {"read": ["d"]}
CFG = ["how", "twice", "d"]
def check(c):
    T = c.thorough; r = c.rng
    exe = c.build("pass", ["pass.c", "@src/readpass.c"], libs=["-Wl,--wrap=fopen", "-lutil", "-lpthread"])
    def K(cfg, lines, n): return "CONSTANTS CfgSet <- %s\n Lines <- %s\n MaxLines = %d\n" % (cfg, lines, n)
    k0 = K("TtyV", "LinesV", 1)
    sc = c.explore("PassF1", K("PipeV", "LinesP", 4 if T else 3), 3)
    c.conform("PassF1", exe, [(g, ev + [{"op": "read", "d": []}]) for g, ev in sc], F, CFG, k0, "other input: every few lines")
    if c.viol: return
    sc = c.explore("PassF1", K("TtyV", "LinesV", 4 if not T else 6), 1, tree=True)
    c.conform("PassF1", exe, batch(sc, 12), F, CFG, k0, "terminal: every few lines", timeout=400)
    if c.viol: return
    # every number of disagreements, then agreement, a lone first line, the end of the input or more disagreement
    sc = []
    for h in (0, 1, 2, 3):
        for bad in range(4):
            for end in ([], [[99]], [[99], [99]], [[], []], [[97], [98]], [[99], [99], [100]]):
                ls = sum(([[97 + i], [98 + i]] for i in range(bad)), []) + end; d = sum((l + [10] for l in ls), [])
                if h in (1, 2): sc.append(({"how": h, "twice": 1, "d": []}, [{"op": "read", "d": d}]))
                else: sc.append(({"how": h, "twice": 1, "d": d}, [{"op": "read", "d": []}] * 3))
    c.conform("PassF1", exe, batch(sc, 6), F, CFG, k0, "disagreements", timeout=400)
    if c.viol: return
    pw = [x for x in range(32, 256) if x != 127]
    sc = []
    for _ in range(120 if T else 30):
        h, t = r.choice([0, 1, 2, 3]), r.randint(0, 1); tty = h in (1, 2)
        def some():
            d = []
            for _ in range(r.choice([1, 2, 4, 6, 7])):
                l = rstr(r, pw, r.choice([0, 1, 8, 40, 1000])) if not d or r.random() < .5 else last
                last = l; d += l + [10]
            return d
        if tty: sc.append(({"how": h, "twice": t, "d": []}, [{"op": "read", "d": some()} for _ in range(4)]))
        else: sc.append(({"how": h, "twice": t, "d": sum((some() for _ in range(4)), [])[:-1 if r.random() < .5 else None]}, [{"op": "read", "d": []}] * 8))
    c.conform("PassF1", exe, sc, F, CFG, k0, "seeded sessions", timeout=400)
