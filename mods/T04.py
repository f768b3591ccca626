from mods.textcommon import *
F = {"u64": ["s", "b"], "size": ["s", "b"], "int": ["s", "b", "bits", "sg"]}
CFG = ["k"]
def K(alpha, ml, bases, ops):
    return "CONSTANTS Alpha = {%s}\n MaxLen0 = %d\n Bases = {%s}\n Ops = {%s}\n" % (",".join(map(str, alpha)), ml, ",".join(map(str, bases)), ",".join('"%s"' % o for o in ops))
DIG = "0123456789abcdefghijklmnopqrstuvwxyz"
def fmt(v, b):
    if v == 0: return "0"
    o = ""
    while v: o = DIG[v % b] + o; v //= b
    return o
def check(c):
    exe = c.build("numd", ["numd.cpp", "@src/strtosize.c"], cxx=True); T = c.thorough; r = c.rng
    o = lambda s: [x for x in s.encode("latin1")]
    for al, ml, bases, ops in ((o("0x9 -f"), 5 if T else 4, [0, 8, 10, 16, 1, 37], ["u64"]), (o("1kKMGTPEBb"), 4 if T else 3, [0], ["size"]), (o("0 kBb\tx"), 5 if T else 4, [10], ["size"])):
        k = K(al, ml, bases, ops)
        c.conform("NumF", exe, batch(c.explore("NumF", k, 1, tree=True)), F, CFG, k, "every text over a small alphabet, " + ops[0])
        if c.viol: return
    ev = []
    M = 1 << 64
    def num(v, b):
        s = fmt(v, b)
        s = "".join(x.upper() if r.random() < .3 else x for x in s)
        pre = "0" * r.choice([0, 0, 0, 1, 3])
        return pre + s
    for b in list(range(2, 37)):            # exact limits of every base
        for d in (-2, -1, 0, 1, 2, b, 1 << 20, M * (b - 1), M * b - 1):
            ev.append({"op": "u64", "s": o(num(max(0, M + d), b)), "b": b})
        for v in (M // b, M // b + 1, M // b - 1): ev.append({"op": "u64", "s": o(num(v, b) + r.choice(DIG[:b])), "b": b})
    for i, u in enumerate("KMGTPE"):
        sh = 10 * (i + 1)
        for b in ("", "B", "b"):
            s2 = sh - 3 if b == "b" else sh
            for d in (-1, 0, 1, 2, 3):
                ev.append({"op": "size", "s": o(str((M >> s2) + d) + u + b), "b": 10})
                ev.append({"op": "size", "s": o(str(((M >> s2) + d) % M * r.choice([3, 5, 7, 64])) + u + b), "b": 0})
            for d in (1023, 1024, 1025, 2047, 16384, 16385, 2**32 + 1, 2**54 + 2**44, 2**63 + 2**50): ev.append({"op": "size", "s": o(str(d) + u + b), "b": 0})
    for i in range(20000 if T else 3000):
        b = r.choice([0, 0, 10, 16, 8, 2, 36, r.randint(2, 36)])
        bb = b or r.choice([8, 10, 16])
        v = r.choice([r.randint(0, 300), r.randint(0, 1 << 20), r.randint(0, M - 1), M - 1 - r.randint(0, 5), M + r.randint(0, 5), r.randint(0, M * 40), 1 << r.randint(0, 65), (1 << r.randint(0, 65)) - 1])
        s = num(v, bb)
        if b == 0: s = {8: "0", 10: "", 16: r.choice(["0x", "0X"])}[bb] + (s.lstrip("0") if bb == 10 else s)
        elif b == 16 and r.random() < .3: s = "0x" + s
        s = r.choice(["", "", "", " ", "\t ", "\n"]) + r.choice(["", "", "", "-", "+"]) + s
        if r.random() < .1: s += r.choice(["z", "Z", "g", "_", " ", "\xe9", "!", "9", "@", "[", "`", "{", "/", ":"])
        if r.random() < .03: s = "".join(r.choice("0x19afzZ -+\xff") for _ in range(r.randint(0, 6)))
        op = r.choice(["u64", "size", "int"])
        if op != "u64": s += r.choice(["", "", "", "k", "K", "M", "G", "T", "P", "E", "Kb", "KB", "Mb", "B", "Gb ", "TB\t", "PBx", "Kbb", "q", "KK", "K B", "EB", "Eb", "BB"])
        e = {"op": op, "s": o(s), "b": b}
        if op == "int": e.update(bits=r.choice([8, 16, 32, 64]), sg=r.randint(0, 1))
        ev.append(e)
    for n in lengths(c, 6, 1):
        for op in ("int", "u64", "size"):
            for t in (" " * n, " " * n + "-3", "\t" * n + "77", "0" * n + "12", "-" + "0" * n + "5"):
                e = {"op": op, "s": o(t), "b": 10}
                if op == "int": e.update(bits=r.choice([8, 32, 64]), sg=1)
                ev.append(e)
    for b in (-1, -5, 1, 37, 100, 65536):
        for op in ("u64", "size"): ev.append({"op": op, "s": o("12"), "b": b})
    for bits in (8, 16, 32, 64):
        for sg in (0, 1):
            for v in {(1 << bits), (1 << bits) - 1, (1 << bits) + 1, (1 << (bits - 1)), (1 << (bits - 1)) - 1, (1 << (bits - 1)) + 1, 0, 1}:
                for n in ("", "-"): ev.append({"op": "int", "s": o(n + str(v)), "b": 10, "bits": bits, "sg": sg})
    c.conform("NumF", exe, batch([({"k": 0}, ev)], 40), F, CFG, k, "limits of every base, seeded texts")
