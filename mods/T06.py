from mods.textcommon import *
F = {"appstr": ["i", "b"], "app": ["i", "j"], "apptail": ["i", "k"], "appch": ["i", "x"], "copy": ["i", "j"], "dup": ["i", "j"], "from": ["i", "b"], "init": ["i", "k"], "trunc": ["i", "k"],
     "reset": ["i"], "trim": ["i"], "chop": ["i"], "chopif": ["i", "b"], "unq": ["i"], "eq": ["i", "j"], "eqs": ["i", "b"], "ends": ["i"], "line": ["i", "b"], "file": ["b"]}
CFG = ["n"]
def check(c):
    exe = c.build("gstrd", ["gstrd.c", "@src/gstring.c"]); T = c.thorough; r = c.rng
    k = "CONSTANTS Chars = {34,%s32}\n Strs <- StrsV\n Files <- FilesV\n MaxN = %d\n Slots = 2\n" % ("200," if T else "", 3 if T else 2)
    sc = c.explore("GstrF1", k, 7 if T else 4)
    c.conform("GstrF1", exe, sc if T else r.sample(sc, min(len(sc), 12000)), F, CFG, k, "transition cover")
    if c.viol: return
    k2 = "CONSTANTS Chars = {97}\n Strs <- StrsV\n Files <- FilesV\n MaxN = 500\n Slots = 2\n"
    sc = c.simulate("GstrF1", k2, 14, 2500 if T else 120)
    c.conform("GstrF1", exe, sc if T else r.sample(sc, min(len(sc), 400)), F, CFG, k2, "random specification behaviours")
    if c.viol: return
    g = []
    for _ in range(2000 if T else 250):
        ev = []; n = 3; ln = [0] * n; f = 0
        for _ in range(40):
            i = r.randint(1, n); j = r.randint(1, n)
            o = r.choice(["appstr", "appstr", "appch", "appch", "app", "copy", "dup", "from", "init", "trunc", "reset", "trim", "chop", "chop", "chopif", "unq", "eq", "eqs", "ends", "line", "file", "line", "apptail"])
            if o == "dup" and i == j: continue
            al = r.choice([[97, 32, 9, 10, 13, 34, 39], list(range(1, 256)), [32, 10, 13], [97, 200]])
            b = rstr(r, al, r.choice([0, 1, 2, 3, 8, 30, 31, 61, 62, 63, 64, 65, 126, 127, 128]))
            if r.random() < .15: b = [r.choice([34, 39])] + b + [r.choice([34, 39])]
            if o in ("app", "apptail") and ln[i - 1] > 300: o = "reset"
            e = {"op": o, "i": i, "j": j, "b": b, "x": r.choice(al), "k": r.choice([0, 1, 2, 5, 30, 62, 63, 64, 100])}
            if o in ("chopif",): e["b"] = rstr(r, al, r.choice([1, 2, 20]))
            if o == "line": e["b"] = r.choice([[10], [10, 13], [44, 10], [200], [97]])
            if o == "apptail": e["k"] = 0
            if o in ("file",):
                e["b"] = rstr(r, al, r.choice([0, 1, 10, 63, 64, 65, 130, 200])); del e["i"]
            ev.append(e)
            ln[i - 1] = {"appstr": ln[i - 1] + len(b), "appch": ln[i - 1] + 1, "app": ln[i - 1] + ln[j - 1], "apptail": 2 * ln[i - 1], "copy": ln[j - 1], "dup": ln[j - 1], "from": len(b), "init": 0, "reset": 0, "line": 200}.get(o, ln[i - 1])
        g.append(({"n": n}, ev))
    c.conform("GstrF1", exe, g, F, CFG, k2.replace("Slots = 2", "Slots = 3"), "seeded histories")
    if c.viol: return
    g = []
    for n in lengths(c):
        m = r.choice([n, 256, 255]); k3 = r.choice([256, 300, n // 2]); w = n
        b = rstr(r, [97, 98, 99, 200], n); ev = [{"op": "appstr", "i": 1, "b": b}, {"op": "appch", "i": 1, "x": 65}, {"op": "dup", "i": 2, "j": 1}, {"op": "eq", "i": 1, "j": 2}]
        x = [[{"op": "from", "i": 2, "b": [32] * 3 + rstr(r, [97, 32], w) + [9] * 300}, {"op": "trim", "i": 2}], [{"op": "from", "i": 2, "b": [34] + rstr(r, [97, 32], n) + [34]}, {"op": "unq", "i": 2}],
             [{"op": "init", "i": 2, "k": n}, {"op": "appstr", "i": 2, "b": b[:m]}, {"op": "app", "i": 2, "j": 1}], [{"op": "trunc", "i": 1, "k": k3}, {"op": "appch", "i": 1, "x": 66}],
             [{"op": "copy", "i": 2, "j": 1}, {"op": "chop", "i": 2}, {"op": "chopif", "i": 2, "b": b[-2:] + [65]}], [{"op": "eqs", "i": 1, "b": b + [65]}, {"op": "eqs", "i": 1, "b": b + [66]}, {"op": "ends", "i": 1}],
             [{"op": "file", "b": rstr(r, [97, 98], w) + [10] + rstr(r, [97, 10], 300)}, {"op": "line", "i": 2, "b": [10]}, {"op": "line", "i": 1, "b": [10]}], [{"op": "from", "i": 1, "b": b}, {"op": "apptail", "i": 1, "k": min(k3, n)}]]
        r.shuffle(x)
        for y in x[:3 if n > 60000 else 8]: ev += y
        g.append(({"n": 2}, ev))
    c.conform("GstrF1", exe, g, F, CFG, k2, "long strings", timeout=600)
