"""Hash tables, filters, pools and arenas of any size (specs/LongT.tla)."""
F = {o: ["a", "b"] for o in ("fill", "drop", "look", "half", "each", "end")}
CFG = ["kind", "x", "y", "seed"]
SRC = {0: ["@src/hashtable/hashtab.c", "@src/hashtable/hashtab_iter.c", "@src/memmgr.c"], 1: ["@src/hashtable/fast-ht.c"], 2: ["@src/hashtable/bloom.c", "@src/humanize.c", "@src/strcopy.c"], 3: ["@src/mempool.c", "@src/arena.c", "@src/memmgr.c"]}
def scripts(c, tk, kinds):
    r = c.rng; T = c.thorough; out = []
    for kind in kinds:
        for big in [250, 600, 3000] + ([70000, 66000, 140000] if T else [66000 + r.randint(0, 6000)]):
            for q in range(3 if T else 1):
                if tk == 0: x, y = r.choice([1, 3, 8, 10]), r.randint(0, 1)
                elif tk == 1: x, y = r.choice([0, 1, 128, 256, 1000, big]), r.randint(0, 2)
                else: x, y = (r.choice([1, 7, 100]) if kind == "scale" and big < 10000 else big), r.choice([1, 2, 3])
                ev = []; top = big; full = False
                if kind in ("count", "std", "scale"):
                    h = big // 3
                    ev += [{"op": "fill", "a": 0, "b": h}, {"op": "look", "a": 0, "b": big}, {"op": "fill", "a": h + 1, "b": big}, {"op": "look", "a": 0, "b": big}]
                    if kind == "count": ev += [{"op": "drop", "a": h, "b": big - 5}, {"op": "look", "a": 0, "b": big}, {"op": "fill", "a": h, "b": big - 5}, {"op": "look", "a": 0, "b": big}, {"op": "drop", "a": 0, "b": big}]
                else:
                    for _ in range(10 if big < 10000 else 7):
                        z = r.random(); a = r.choice([0, 1, 250, 255, 256, r.randint(0, big), 65530]); a = min(a, big - 1); b = r.choice([big, min(big, a + r.randint(0, 300)), a - 1, big - 1])
                        if not full: ev.append({"op": "fill", "a": 0, "b": big}); full = True; continue
                        o = r.choice(["fill", "drop", "look"] + (["half", "each", "each"] if tk == 0 else []))
                        if o in ("half", "each"): a, b = r.randint(0, 1 if o == "half" else 2), 0
                        ev.append({"op": o, "a": a, "b": b})
                    if tk == 0: ev += [{"op": "each", "a": w, "b": 0} for w in (1, r.choice([0, 2]))]
                    ev += [{"op": "look", "a": 0, "b": big + 300}]
                out.append(({"kind": kind, "x": x, "y": y, "seed": r.randint(1, 1 << 30)}, ev + [{"op": "end", "a": 0, "b": 0}]))
    return out
def blocks(c, kinds):
    """Pools and arenas: many blocks, large blocks, chunks of any size."""
    r = c.rng; T = c.thorough; out = []
    for kind in kinds:
        for big, y in [(255, 24), (256, 8), (257, 1), (300, 300), (1000, 70000 if kind != "arena" else 65536), (40, 66000), (3000, 100)] + ([(70000, 16), (66000, 7), (140000, 24)] if T else [(65536 + r.randint(0, 5000), r.choice([7, 16, 24]))]):
            for q in range(4 if T else 2):
                y = y + r.choice([0, 1, 255]) if y > 200 else y
                x = r.choice([0, big, big - 1, 255, 256, 300, big // 2]) if kind == "pool" else r.choice([big, big // 2 + 1]) if kind == "mem" else r.choice([1, 64, 255, 256, 300, 4096, 65535, 65536, 70001])
                if kind == "mem" and x * y > 1 << 24: x = 50
                m = set(); ev = []; used = 0
                nxt = 0
                for _ in range(8):
                    if kind != "arena" and m and r.random() < .45:
                        lo, hi = min(m), max(m); a = r.choice([lo, lo + 1, (lo + hi) // 2, max(lo, hi - 300)]); b = r.choice([hi, a, a + 255, a + 299]); ev.append({"op": "drop", "a": a, "b": b}); m -= set(range(a, b + 1))
                    else:
                        n = r.choice([1, 255, 257, big, big // 2]); n = min(n, big + 300); ev.append({"op": "fill", "a": nxt, "b": nxt + n - 1})
                        if kind == "mem" and len(m) + n > x: m |= set(range(nxt, nxt + max(0, x - len(m))))
                        else: m |= set(range(nxt, nxt + (n if not (kind == "pool" and x) else min(n, max(0, x - len(m))))))
                        nxt += n
                        if nxt + big + 600 > 390000: break
                    ev.append({"op": "look", "a": 0, "b": nxt})
                out.append(({"kind": kind, "x": x, "y": y, "seed": r.randint(1, 1 << 30)}, ev + [{"op": "end", "a": 0, "b": 0}]))
    return out
def check(c, tk, kinds):
    exe = c.build("longt", ["longt.c"] + SRC[tk], defs=("-DTK=%d" % tk,), libs=("-lm", "-lpthread"))
    k = "CONSTANTS Kinds = {%s}\n Edges = {0,1,2,3}\n" % ",".join('"%s"' % x for x in kinds if x != "mem")
    sc = c.explore("LongT", k, 5)
    c.conform("LongT", exe, [(dict(g, x=r_), ev + [{"op": "end", "a": 0, "b": 0}]) for r_ in (1,) for g, ev in sc], F, CFG, k, "small intervals")
    if c.viol: return
    c.conform("LongT", exe, blocks(c, kinds) if tk == 3 else scripts(c, tk, kinds), F, CFG, k, "any size", timeout=800)
