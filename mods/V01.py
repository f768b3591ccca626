F = {"pushb": ["x"], "pushf": ["x"], "pushn": ["n"], "set": ["i", "x"], "reserve": ["n"], "ensure": ["n"], "sample": ["k"]}
CFG = ["ty", "ca", "cb", "seed"]
K = "CONSTANTS Vals = {%s}\n Types = %s\n Caps = {%s}\n MaxN = %d\n"
def rand(r, n, ln):
    out = []
    for _ in range(n):
        ev, a, b, up = [], 0, 0, .6
        for _ in range(ln):
            if r.random() < .05: up = r.choice([.3, .5, .7, .9])
            x = r.random()
            if x < .03 and a < 200: ev.append({"op": "pushn", "n": r.randint(0, 40)}); a += ev[-1]["n"]
            elif x < .1: ev.append({"op": "reserve", "n": r.randint(0, 300)})
            elif x < .15: ev.append({"op": "ensure", "n": r.randint(0, 30)})
            elif x < .2: ev.append({"op": r.choice(["copy", "from"])}); b = a
            elif x < .24: ev.append({"op": "swap"}); a, b = b, a
            elif x < .28 and a + b < 300: ev.append({"op": "appendv"}); a += b
            elif x < .30 and a < 120: ev.append({"op": "appself"}); a *= 2
            elif x < .31: ev.append({"op": "reset"}); a = 0
            elif x < .36: ev.append({"op": r.choice(["sort", "shuffle", "copyself"])})
            elif x < .40:
                k = r.choice([0, 1, a, a + 1, max(0, a - 1), r.randint(0, a + 3)])
                ev.append({"op": "sample", "k": k})
                if k < a: b = k
                elif k == a: ev.append({"op": "copy"}); b = a
            elif r.random() < up or not a:
                o = r.choice(["pushb", "pushf", "lit", "dupf", "dupb"]) if a else "pushb"
                ev.append({"op": o, "x": r.randint(-100, 100)} if o.startswith("push") else {"op": o}); a += 2 if o == "lit" else 1
            else:
                o = r.choice(["popb", "popf", "pop", "pick", "set"])
                if o == "set": ev.append({"op": o, "i": r.randint(0, a - 1), "x": r.randint(-100, 100)})
                else: ev.append({"op": o}); a -= o != "pick"
        out.append(({"ty": r.randint(0, 2), "ca": r.choice([0, 1, 2, 3, 8, 16]), "cb": r.choice([0, 1, 2, 7]), "seed": r.randint(1, 1 << 30)}, ev))
    return out
def check(c):
    exe = c.build("vectd", ["vectd.c"]); T = c.thorough
    k = K % ("1,2", "{0,1,2}" if T else "{0}", "1,2" if T else "1", 3 if T else 2)
    sc = c.explore("VectF", k, 6)
    for i, x in enumerate(sc): x[0]["ty"] = i % 3
    c.conform("VectF", exe, sc, F, CFG, k, "transition cover")
    if c.viol: return
    k2 = K % ("1", "{0,1,2}", "1", 6)
    sc = c.explore("VectF", k2, 3, tree=True)
    c.conform("VectF", exe, sc if T else c.rng.sample(sc, min(len(sc), 9000)), F, CFG, k2, "every operation sequence of length 3")
    if c.viol: return
    c.conform("VectF", exe, rand(c.rng, 1500 if T else 120, 150), F, CFG, k, "seeded histories")
    if c.viol: return
    # sizes and capacities past 8 and 16 bits (the elements stay different where they are shuffled or sampled)
    r = c.rng; g = []
    def big(ty, n, extra):
        ev = [{"op": "pushn", "n": n}, {"op": "copy"}]
        z = ["pushf", "set", "popf", "popb", "dupb", "sort", "shuffle", "sample", "appendv", "reserve", "ensure", "pick", "from", "swap", "pushb", "small"]; r.shuffle(z)
        for o in z[:extra]:
            if o in ("sort", "shuffle", "sample") and ty == 1: o = "dupf"
            if o in ("pushf", "pushb"): ev.append({"op": o, "x": -5 if o == "pushf" else -6})
            elif o == "set": ev.append({"op": o, "i": r.choice([255, 256, n - 2, n // 2]) % (n - 1), "x": -7})
            elif o == "sample": ev += [{"op": "sample", "k": r.choice([n // 2, n - 2, 256 % n, 300 % n])}]
            elif o in ("reserve", "ensure"): ev.append({"op": o, "n": r.choice([n + 1, 2 * n, 300, 70000])})
            elif o == "small": ev += [{"op": "swap"}, {"op": "reset"}, {"op": "pushn", "n": 120 if ty == 1 else 257}, {"op": "swap"}]
            elif o == "appendv": ev += [{"op": "appendv"}, {"op": "popb"}, {"op": "copy"}, {"op": "reset"}, {"op": "pushn", "n": n}]
            elif o in ("dupb", "dupf") and ty != 1: ev += [{"op": o}, {"op": "popb" if o == "dupb" else "popf"}]
            else: ev.append({"op": o})
        ev += [{"op": "reset"}] + [{"op": "pushb", "x": j % 7} for j in range(6)]
        return ({"ty": ty, "ca": r.choice([0, 1, 300]), "cb": r.choice([0, 1, 7]), "seed": r.randint(1, 1 << 30)}, ev)
    for n in [256, 257, 300, 511, 512, 1000, 5000]: 
        for ty in (0, 2): g.append(big(ty, n, 16))
    for n in (127, 126): g.append(big(1, n, 16))
    for n in (65535, 65536, 66000) if T else (r.choice([65536, 66000]),): g += [big(ty, n, 16 if T else 6) for ty in (0, 2)]
    # growth one element at a time past 8 bits, growth by appending past 16
    for ty in range(3): g.append(({"ty": ty, "ca": 0, "cb": 0, "seed": 3}, [{"op": r.choice(["pushb", "pushb", "pushf"]), "x": r.randint(-99, 99)} for _ in range(300)] + [{"op": "sort"}]))
    g.append(({"ty": 2, "ca": 0, "cb": 0, "seed": 3}, [{"op": "pushn", "n": 35000}, {"op": "copy"}, {"op": "appendv"}, {"op": "popb"}, {"op": "pushb", "x": 3}, {"op": "copy"}, {"op": "popf"}]))
    c.conform("VectF", exe, g, F, CFG, k, "long vectors", timeout=800)
