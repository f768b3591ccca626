from mods.textcommon import *
F = {"copy": ["s", "n"], "dir": ["s", "n"], "trim": ["s"], "unq": ["s"], "cmp": ["s", "t"], "ncmp": ["s", "t", "n"], "lcpy": ["s", "n"]}
CFG = ["k"]
def K(alpha, ml, sizes, ops): return "CONSTANTS Alpha = {%s}\n MaxLen0 = %d\n Sizes = {%s}\n Ops = {%s}\n" % (",".join(map(str, alpha)), ml, ",".join(map(str, sizes)), ",".join('"%s"' % o for o in ops))
def check(c):
    exe = c.build("utild", ["utild.c", "@src/strcopy.c", ("@src/dirname.c", []), ("@src/strlcpy.c", ["-Dstrlcpy=pl_strlcpy"]), "@src/strtrim.c", "@src/strunquote.c", ("@src/strcasecmp.c", ["-Dstrcasecmp=pl_strcasecmp", "-Dstrncasecmp=pl_strncasecmp"])]); T = c.thorough; r = c.rng
    for al, ml, sz, ops in (([47, 97, 46], 8 if T else 6, [1, 2, 7, 12], ["dir"]), ([97, 200], 6 if T else 5, [1, 2, 3, 5, 6, 9], ["copy"]), ([97, 200], 6 if T else 5, [0, 1, 2, 3, 5, 6, 9], ["lcpy"]), ([32, 97, 9, 200], 6 if T else 5, [], ["trim"]), ([34, 39, 97, 92], 6 if T else 5, [], ["unq"]), ([64, 65, 97, 200], 3, [0, 1, 2, 3, 4], ["cmp"]), ([90, 122, 91, 255], 3, [0, 1, 2, 3, 4], ["cmp"])):
        k = K(al, ml, sz or [1], ops)
        c.conform("UtilF", exe, batch(c.explore("UtilF", k, 1, tree=True)), F, CFG, k, "every text over a small alphabet, " + ops[0])
        if c.viol: return
    ev = []
    for i in range(15000 if T else 2500):
        o = r.choice(["copy", "lcpy", "dir", "trim", "unq"])
        al = {"copy": list(range(1, 256)), "lcpy": list(range(1, 256)), "dir": r.choice([[47, 97], [47, 97, 98, 99, 46, 46], list(range(1, 256)), [97, 98, 99, 100, 47]]), "trim": r.choice([list(range(1, 256)), [32, 10, 97, 160, 133], [9, 10, 11, 12, 13, 32]]), "unq": r.choice([[34, 97], [39, 34, 97, 200], list(range(1, 256))])}[o]
        s = rstr(r, al, r.choice([0, 1, 2, 3, 7, 8, 20, 64, 100]))
        if o == "unq" and r.random() < .6: q = r.choice([34, 39]); s = [q] + s + ([q] if r.random() < .7 else [])
        if o == "trim" and r.random() < .5: s = [32] * r.randint(0, 3) + s + [9, 32][:r.randint(0, 2)]
        e = {"op": o, "s": s}
        if o in ("copy", "lcpy", "dir"): e["n"] = max(1 if o == "copy" else 0, r.choice([len(s), len(s) + 1, len(s) + 2, len(s) - 1, 1, 2, len(s) // 2, 200]))
        ev.append(e)
    for a in range(256):        # every pair of bytes
        for b in range(0, 256) if T else [a ^ 32, a ^ 128, a + 1 & 255, r.randrange(256)]:
            if a and b: ev += [{"op": "cmp", "s": [120, a], "t": [88, b]}, {"op": "ncmp", "s": [a, 1], "t": [b, 2], "n": 1}]
    for i in range(3000 if T else 400):
        s = rstr(r, [65, 97, 66, 98, 200, 232, 91, 123], r.randint(0, 12)); t = [x ^ 32 if r.random() < .5 and (x & ~32) in range(65, 91) else x for x in s]
        if t and r.random() < .5: t[r.randrange(len(t))] = r.randint(1, 255)
        ev += [{"op": "cmp", "s": s, "t": t[:r.randint(0, 12)]}, {"op": "ncmp", "s": s, "t": t, "n": r.randint(0, 14)}]
    c.conform("UtilF", exe, batch([({"k": 0}, ev)], 50), F, CFG, k, "seeded texts")
    if c.viol: return
    ev = []
    for n in lengths(c, 7):
        s = rstr(r, [97, 98, 47, 200], n); w = s; z = [47] + [97] * (n - 1)
        ev += [{"op": o, "s": s, "n": r.choice([n + 1, n, 256, n + 300, 300])} for o in ("copy", "lcpy")]
        ev += [{"op": "dir", "s": r.choice([w + [47, 97], [97] * 300 + [47] + [98] * 400, w + [47] * 300]), "n": 80000}, {"op": "unq", "s": [39] + s + [39]}, {"op": "trim", "s": [32] * 300 + w + [9] * 260}, {"op": "trim", "s": [32] + s}]
        t = [x ^ 32 if x in (97, 98) else x for x in w]; q = r.randrange(len(w)); u = list(t); u[q] = 99
        ev += [{"op": "cmp", "s": w, "t": t}, {"op": "cmp", "s": w, "t": u}, {"op": "ncmp", "s": w, "t": u, "n": r.choice([q, q + 1, 256, 70000])}, {"op": "cmp", "s": w, "t": t + [97] * 256}]
    c.conform("UtilF", exe, batch([({"k": 0}, ev)], 8), F, CFG, k, "long texts", timeout=600)
