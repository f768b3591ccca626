from mods.textcommon import *
F = {"addr": ["s"], "both": ["s"], "cidr": ["v"], "text": ["v", "n"]}
CFG = ["k"]
def check(c):
    exe = c.build("ipd", ["ipd.c", "@src/parse-ip.c"]); T = c.thorough; r = c.rng
    K = lambda al, ml: "CONSTANTS Alpha = {%s}\n MaxLen0 = %d\n Tails <- TailsV\n Masks <- MasksV\n" % (",".join(map(str, al)), ml)
    o = lambda s: [x for x in s.encode("latin1")]
    k0 = K([], 0)
    for al, ml in ((o("05.x"), 5 if T else 3), (o("0123456789"), 3 if T else 2), (o("25."), 6 if T else 4), (o("3/ "), 4 if T else 3)):
        k = K(al, ml)
        c.conform("IpF1", exe, batch(c.explore("IpF2", k, 1, tree=True)), F, CFG, k0, "every text over a small alphabet, every mask")
        if c.viol: return
    ev = []
    l2 = lambda v: [v >> 16, v & 65535]
    for n in range(256):
        ev.append({"op": "addr", "s": o("%d.%d.%d.%d" % (n, 255 - n, n ^ 85, n))})
        ev.append({"op": "both", "s": o("9.8.7.6/%d" % n)}); ev.append({"op": "both", "s": o("9.8.7.6/%d.0.0.0" % n)})
        for p in range(4): q = ["1"] * 4; q[p] = str(n + 250); ev.append({"op": "addr", "s": o(".".join(q))})
        if n: ev.append({"op": "addr", "s": [49, 46, 50, 46, 51, 46, n]}); ev.append({"op": "addr", "s": [n] + o("1.2.3.4")}); ev.append({"op": "both", "s": o("1.2.3.4/1") + [n]}); ev.append({"op": "addr", "s": o("1.2") + [n] + o("3.4")})
    for d in (1 << 32, 1 << 64, (1 << 64) + 24, (1 << 96) + 8, 10**30, (1 << 32) + 16, (1 << 65) + 1, 10**31, 10**35 + 8, 1 << 31):
        ev.append({"op": "both", "s": o("1.2.3.4/%d" % d)}); ev.append({"op": "addr", "s": o("1.2.3.%d" % d)}); ev.append({"op": "addr", "s": o("%d.2.3.4" % d)})
    for z in range(26, 40): ev.append({"op": "both", "s": o("1.2.3.4/" + "0" * z + "9")}); ev.append({"op": "both", "s": o("1.2.3.4/" + "0" * z + "x")}); ev.append({"op": "both", "s": o("0" * z + "1.2.3.4")}); ev.append({"op": "both", "s": o("1.2.3.4" + "0" * z + "/9")})
    for i in range(20000 if T else 2500):
        def num(): return r.choice(["", "0", "255", "256", "00", "007", "1e1", "+1", " 1", "-1", "0x1", "1000", "99999"]) if r.random() < .07 else str(r.choice([r.randint(0, 255), r.randint(0, 9), 255, 0, r.randint(0, 300)]))
        def quad(): return ".".join(num() for _ in range(4 if r.random() < .9 else r.randint(1, 6)))
        s = quad()
        if r.random() < .03: s += "."
        if r.random() < .03: s = "." + s
        ev.append({"op": "addr", "s": o(s)})
        z = r.random()
        if z < .3: t = "/" + quad()
        elif z < .8: t = "/" + (str(r.randint(0, 33)) if r.random() < .9 else num())
        elif z < .85: t = r.choice(["/", "//8", "/8/", "/8 ", "/ 8", "/08"])
        else: t = ""
        ev.append({"op": "both", "s": o(s + t)})
        n = r.randint(0, 32); v = ((0xffffffff << (32 - n)) & 0xffffffff) ^ (r.choice([0, 0, 1 << r.randint(0, 31), r.getrandbits(32)]))
        ev.append({"op": "cidr", "v": l2(v)})
        ev.append({"op": "text", "v": l2(r.choice([v, r.getrandbits(32), r.getrandbits(32) & 0x0f0f0f0f])), "n": r.choice([16, 16, 16, r.randint(1, 18)])})
    c.conform("IpF1", exe, batch([({"k": 0}, ev)], 60), F, CFG, k0, "every field value, prefix length and character; seeded texts")
