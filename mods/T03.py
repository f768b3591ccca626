from mods.textcommon import *
F = {"esc": ["s", "set", "x"], "unesc": ["s", "x"]}
CFG = ["k"]
OKESC = [x for x in range(1, 256) if chr(x) not in "abeEfnrtvx0123456789"]
def K(alpha, ml, escs): return "CONSTANTS Alpha = {%s}\n MaxLen0 = %d\n Escs = {%s}\n Sets <- SetsV\n" % (",".join(map(str, alpha)), ml, ",".join(map(str, escs)))
def check(c):
    exe = c.build("escd", ["escd.c", "@src/escape.c", "@src/unescape.c", "@src/gstring.c"]); T = c.thorough; r = c.rng
    for al, ml, ex in (([92, 98, 48, 120, 70], 5 if T else 4, [92]), ([37, 200, 10, 55], 5 if T else 4, [37]), ([200, 10, 49, 51], 4 if T else 3, [201, 200])):
        k = K(al, ml, ex)
        sc = c.explore("EscF1", k, 1, tree=True)
        sc = [x for x in sc if all(e["x"] not in e.get("set", []) for e in x[1])]
        c.conform("EscF1", exe, batch(sc), F, CFG, k, "every text over a small alphabet")
        if c.viol: return
    ev = []
    for x in [92, 37, 255]:
        for v in range(1, 256):
            ev.append({"op": "esc", "s": [v, 65, v, v, 48, 55], "set": [y for y in (v, 10, 200) if y != x], "x": x})
            for f in ("%c0%03o", "%c0%o", "%c%d", "%cx%02x", "%cx%02X", "%cx%x", "%c0%03o7", "%c%03d9", "%cx%02xf"):
                ev.append({"op": "unesc", "s": [x] + list(((f[2:]) % v).encode()) + [90], "x": x})
            ev.append({"op": "unesc", "s": [x, v], "x": x}); ev.append({"op": "unesc", "s": [65, x, v, x], "x": x}); ev.append({"op": "unesc", "s": [x, 120, v, v], "x": x})
    for i in range(12000 if T else 1500):
        x = r.choice([92, 37, 38, r.choice(OKESC)])
        al = r.choice([list(range(1, 256)), [x, 48, 49, 55, 120, 102, 70, 97], [x, 10, 7, 200, 65], list(range(1, 40)), list(range(128, 256))])
        s = rstr(r, al, r.choice([0, 1, 2, 5, 20, 62, 63, 64, 127, 200]))
        if r.random() < .6:
            z = rstr(r, al, r.choice([0, 1, 3, 10])); ev.append({"op": "esc", "s": s, "set": [y for y in z if y != x], "x": x})
        else: ev.append({"op": "unesc", "s": s, "x": x})
    c.conform("EscF1", exe, batch([({"k": 0}, ev)], 50), F, CFG, k, "every byte in every escape form, seeded texts")
    if c.viol: return
    ev = []
    for n in lengths(c):
        x = r.choice([92, 37]); al = r.choice([[x, 97, 48, 49, 120, 65], [65, 66, 10, 34], list(range(1, 256))])
        ev.append({"op": "esc", "s": rstr(r, al, n), "set": [34, 10, 65], "x": x})
        ev.append({"op": "unesc", "s": rstr(r, al, n), "x": x})
    c.conform("EscF1", exe, batch([({"k": 0}, ev)], 4), F, CFG, k, "long texts")
