from mods.textcommon import *
F = {"pack": ["fmt", "cap", "a"], "unpack": ["fmt", "b", "plan"], "unpackm": ["fmt", "b", "plan", "k"]}
CFG = ["k"]
W = {**dict.fromkeys("bB", 1), **dict.fromkeys("sS", 2), **dict.fromkeys("iIf", 4), **dict.fromkeys("lLdD", 8)}
def desc(f):
    """What the driver has to provide for a template: list of (type, count, after '*'); stops at a malformed place."""
    i, out, v = (1 if f[:1] in ([60], [62]) else 0), [], False
    while i < len(f):
        if f[i] in (32, 9, 10, 11, 12, 13): i += 1; continue
        if f[i] == 42: out.append(("*", -1, False)); v = True; i += 1; continue
        n = -1
        if 48 <= f[i] <= 57:
            n = 0
            while i < len(f) and 48 <= f[i] <= 57: n = n * 10 + f[i] - 48; i += 1
        ch = chr(f[i]) if i < len(f) else ""
        if ch not in W and ch not in ("z", "Z", "x") or not ch: break
        out.append((ch, n, v)); v = False; i += 1
    return out
def plan(f):
    p = []
    for ch, n, v in desc(f):
        if ch == "*": p += [3, 4]
        elif ch == "x": pass
        elif ch in "zZ": p += [1, 0]
        elif v: p += [2, W[ch]]
        else: p += [0, min(max(n, 1), 100000) * W[ch]]
    return p
def fix(scripts):
    for _, ev in scripts:
        for e in ev:
            if e["op"] != "pack": e["plan"] = plan(e["fmt"])
    return scripts
def flt(r, w):
    import struct
    x = r.choice([0.0, -0.0, 1.0, -1.5, 3.14159, 1e10, -1e-10, float("inf"), 65504.0, r.uniform(-1e6, 1e6)])
    return list(struct.pack(">f" if w == 4 else ">d", x))
def gen(r):
    f, a, need, exact = [], [], 0, []
    def put(s): f.extend(s.encode())
    be = r.choice(["", "<", ">"]); put(be)
    byt = lambda n: [r.choice([0, 255, 128, r.randint(0, 255)]) for _ in range(n)]
    nd = 0
    for _ in range(r.randint(1, 6)):
        put(r.choice(["", "", " ", "\t "]))
        ch = r.choice("bBsSiIlLfdDxzZ"); z = r.random()
        if z < .3:
            n = r.choice([0, 1, 1, 2, 3, 5]); put("*" + r.choice(["", " "]) + ch); a += [3, n]; need += 4
            if ch in W: a += [1, W[ch], n] + byt(n * W[ch]); need += n * W[ch]
            elif ch == "x": need += n
            else: l = r.randint(-1, 6); a += [2, l] + [r.randint(1, 255) for _ in range(l)]; need += n
        else:
            n = -1 if z < .6 else r.choice([1, 2, 3, 4, 9, 10, 12, 17, r.randint(20, 130) if r.random() < .1 else 5])
            put(("" if n < 0 else r.choice(["", "", "0", "00"]) + str(n)) + ch)
            if ch in W:
                w = W[ch]
                if n <= 1: a += ([4, w] + flt(r, w)) if ch in "fdD" else [0, w] + byt(w)
                else: a += [1, w, n] + byt(n * w)
                need += max(n, 1) * w
            elif ch == "x": need += max(n, 1)
            else:
                l = r.randint(-1, 8); a += [2, l] + [r.randint(1, 255) for _ in range(l)]
                need += n if n > 0 else max(l, 0) + 1
    return f, a, need
def check(c):
    exe = c.build("packd", ["packd.c", "@src/pack.c"], libs=["-Wl,--wrap=malloc,--wrap=calloc,--wrap=free"]); T = c.thorough; r = c.rng
    k = "CONSTANTS Tmpls <- TmplsV\n Caps = {%s}\n Ins <- InsV\n" % ",".join(map(str, range(0, 40 if T else 26)))
    c.conform("PackF1", exe, batch(fix(c.explore("PackF2", k, 1, tree=True))), F, CFG, k, "every template of the model, every capacity")
    if c.viol: return
    ev = []
    for _ in range(20000 if T else 2500):
        f, a, need = gen(r)
        ev.append({"op": "pack", "fmt": f, "cap": need, "a": a})
        ev.append({"op": "pack", "fmt": f, "cap": max(0, r.choice([need - 1, need + 1, need - 2, need - 4, need + 9, r.randint(0, need)])), "a": a})
        bad = list(f)
        z = r.random()
        if z < .2: bad += r.choice([[42], [52], [49, 56], [33], [200], [62]])
        elif z < .3: bad = [x for x in f if x != 32] + [255]
        else: bad = None
        if bad: ev.append({"op": "pack", "fmt": bad, "cap": need + 8, "a": a + [3, 2]})
        # unpack what the specification says the packed form is, whole, cut, extended or damaged
        b = pack(f, a)
        if b is not None:
            assert len(b) == need
            ev.append({"op": "unpack", "fmt": f, "b": b})
            if any(x in f for x in b"*zZ"): ev += [{"op": "unpackm", "fmt": f, "b": b, "k": q} for q in range(4 if T else 2)]
            y = list(b)
            m = r.random()
            if m < .5 and y: y = y[:r.randint(0, len(y) - 1)]
            elif m < .7: y += [r.randint(0, 255)] * r.randint(1, 3)
            elif y: y[r.randrange(len(y))] = r.choice([0, 255, r.randint(0, 255)])
            ev.append({"op": "unpack", "fmt": f, "b": y})
    big = ["4294967296", "4611686018427387905", "9223372036854775809", "18446744073709551615", "18446744073709551616", "99999999999999999999", "2305843009213693953", "1152921504606846977", "1000", "65536", "4294967295", "2147483648"]
    for n in big:
        for ch in "BSILfDZx":
            for be in "<>":
                f = list((be + "B" + n + ch).encode())
                ev.append({"op": "pack", "fmt": f, "cap": 20, "a": [0, 1, 7] + ([2, 1, 65] if ch == "Z" else [1, W.get(ch, 1), 0] if ch != "x" else [])})
                ev.append({"op": "unpack", "fmt": f, "b": [7] + [1] * 12})
    for ch in range(1, 256):
        ev.append({"op": "pack", "fmt": [ch], "cap": 30, "a": ([4, W[chr(ch)]] + flt(r, W[chr(ch)])) if chr(ch) in "fdD" else [0, W[chr(ch)]] + [9] * W[chr(ch)] if chr(ch) in W else [2, 2, 65, 66] if chr(ch) in "zZ" else [3, 1] if ch == 42 else []})
        ev.append({"op": "unpack", "fmt": [ch], "b": [1, 2, 3, 0, 5, 6, 7, 8, 9]})
    c.conform("PackF1", exe, batch(fix([({"k": 0}, ev)]), 60), F, CFG, k, "seeded templates and damaged input, huge counts, every character")
    if c.viol: return
    # counts and lengths past 8 and 16 bits
    ev, q, sizes = [], [], [255, 256, 257, 300, 1000, 65535, 65536, 65537, 70001] if not T else [127, 128, 255, 256, 257, 300, 511, 1000, 4097, 32767, 32768, 65535, 65536, 65537, 70001, 99999]
    def long(tail=()):
        n = r.choice(sizes); ch = r.choice("bsixzZZB" if n > 5000 else "bBsSiIlLfdDxzZZ"); be = r.choice("<>"); z = r.random() < .5
        w = W.get(ch, 1); byt = [(r.randrange(256) + i * 7) & 255 for i in range(n * w)]
        f = list((be + ("*" if z else "" if ch in "zZ" and r.random() < .4 else str(n)) + ch + "s").encode()); un = f[1] not in b"*0123456789"
        a = ([3, n] if z else []); need = 2 + 4 * z
        if ch in W: a += [1, w, n] + byt; need += n * w
        elif ch == "x": need += n
        else:
            l = n if un else r.choice([n, n - 1, n + 1, n - 256, n + 256, n // 2]); a += [2, l] + [r.randint(1, 255) for _ in range(l)]; need += l + 1 if un else n
        return f, a + [0, 2, 7, 9], need
    for _ in range(120 if T else 40):
        f, a, need = long()
        es = [{"op": "pack", "fmt": f, "cap": need + d, "a": a} for d in r.sample([0, -1, 1, -2, -256, 256], 2)]
        b = pack(f, a); assert len(b) == need
        es += [{"op": "unpack", "fmt": f, "b": b}, {"op": "unpack", "fmt": f, "b": b[:len(b) - r.choice([1, 2, 256])]}]
        (q if need > 5000 else ev).extend(es)
    c.conform("PackF1", exe, batch(fix([({"k": 0}, ev)]), 10) + batch(fix([({"k": 0}, q)]), 4), F, CFG, k, "counts and lengths past 8 and 16 bits")
def pack(f, a):
    import itertools
    be = f[:1] == [62]; out, i, vn = [], 0, 0
    od = (lambda b: b) if be else (lambda b: b[::-1])
    for ch, n, v in desc(f):
        if ch == "*": vn = a[i + 1]; i += 2; out += od(list(vn.to_bytes(4, "big"))); continue
        if ch == "x": out += [0] * (vn if v else max(n, 1)); continue
        if ch in "zZ":
            l = a[i + 1]; s = a[i + 2:i + 2 + max(l, 0)]; i += 2 + max(l, 0); m = vn if v else n if n > 0 else len(s) + 1
            out += (s + [0] * m)[:m]; continue
        w = W[ch]
        if not v and n <= 1: out += od(a[i + 2:i + 2 + w]); i += 2 + w
        else:
            m = vn if v else n
            for j in range(m): out += od(a[i + 3 + j * w:i + 3 + j * w + w])
            i += 3 + m * w
    return out
