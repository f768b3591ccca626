from mods.textcommon import *
F = {"set": ["n", "v"], "exp": ["t"]}
CFG = ["k"]
def check(c):
    exe = c.build("expandd", ["expandd.c", "@src/gstring.c", "@src/gstring_var.c"]); T = c.thorough; r = c.rng
    k = "CONSTANTS Alpha = {36,97,92,123,125%s}\n MaxLen0 = %d\n Names <- NamesV\n Values <- ValuesV\n" % (",32" if T else "", 6 if T else 5)
    sc = c.explore("ExpandF1", k, 4, tree=True)
    by = {}
    for cfg, ev in sc: by.setdefault(repr(ev[:3]), (ev[:3], []))[1].append(ev[3])
    out = []
    for pre, evs in by.values():
        if not T: evs = r.sample(evs, min(len(evs), 700))
        out += [({"k": 0}, pre + evs[i:i + 100]) for i in range(0, len(evs), 100)]
    c.conform("ExpandF1", exe, out, F, CFG, k, "every template over a small alphabet, every environment")
    if c.viol: return
    g = []
    for _ in range(1500 if T else 150):
        names = []
        al = [97, 98, 65, 48, 95, 45, 46, 58, 36]
        for _ in range(r.randint(0, 8)):
            names.append(r.choice([rstr(r, al, r.randint(1, 4)), rstr(r, [97, 32, 36, 123, 92, 200], r.randint(1, 5)), rstr(r, [97, 98], 70)]))
        ev = [{"op": "set", "n": n, "v": r.choice([[], rstr(r, [97, 36, 92, 123, 125, 98], r.randint(0, 6)), rstr(r, list(range(1, 256)), r.choice([1, 62, 63, 64, 200]))])} for n in names]
        for _ in range(20):
            t = []
            for _ in range(r.randint(0, 8)):
                z = r.random()
                if z < .35 and names: t += [36, 123] + r.choice(names) + [125]
                elif z < .6 and names: t += [36] + r.choice(names) + ([] if r.random() < .3 else [r.choice([32, 47, 9, 123, 125, 92, 200, 44])])
                elif z < .7: t += [92, 36]
                elif z < .75: t += r.choice([[36], [36, 123], [36, 32], [92, 92, 36, 97], [92]])
                else: t += rstr(r, [97, 32, 92, 125, 123, 200, 10], r.randint(0, 20))
            ev.append({"op": "exp", "t": t})
        ev.append({"op": "set", "n": [97], "v": [90]}); ev.append({"op": "exp", "t": [36, 97, 32, 36, 123, 97, 125]})
        g.append(({"k": 0}, ev))
    g.append(({"k": 0}, [{"op": "set", "n": [x], "v": [65]} for x in range(1, 256) if x not in (125,)] + [{"op": "exp", "t": [36, x]} for x in range(1, 256)] + [{"op": "exp", "t": [36, 97, x, 97]} for x in range(1, 256)] + [{"op": "exp", "t": [36, 123, x, 125, x]} for x in range(1, 256)]))
    c.conform("ExpandF1", exe, g, F, CFG, k, "seeded templates, every byte as a name")
    if c.viol: return
    g = []
    for n in lengths(c):
        v = rstr(r, [97, 36, 123, 92, 200], n); nm = rstr(r, [97, 98], min(n, 4000)); w = min(n, 3000)
        ev = [{"op": "set", "n": [97], "v": v}, {"op": "set", "n": [98], "v": [90]}, {"op": "set", "n": nm, "v": [89]}, {"op": "exp", "t": [36, 97]}, {"op": "exp", "t": [65] + [36, 97, 32, 36, 123, 97, 125, 66]},
              {"op": "exp", "t": [36] + nm}, {"op": "exp", "t": [32, 36, 123] + nm + [125, 32]}]
        ev += [{"op": "exp", "t": rstr(r, [67, 32, 200], w) + [36, 98]}, {"op": "exp", "t": [36, 98, 32] * (w // 3)}] if n < 60000 else []
        g.append(({"k": 0}, ev))
    c.conform("ExpandF1", exe, g, F, CFG, k, "long values, names and templates", timeout=600)
