from mods.textcommon import *
F = {"open": [], "find": ["k"]}
CFG = ["own", "file"]
M64 = (1 << 64) - 1
def mix(h): h ^= h >> 23; h = h * 0x2127599bf4325c37 & M64; return h ^ h >> 47
def fasthash64(b, seed):
    m = 0x880355f21e6d1965; h = seed ^ (len(b) * m & M64); n = len(b) & ~7
    for i in range(0, n, 8): h ^= mix(int.from_bytes(b[i:i + 8], "little")); h = h * m & M64
    if len(b) & 7: h ^= mix(int.from_bytes(b[n:], "little")); h = h * m & M64
    return mix(h)
def real(k): h = fasthash64(bytes(k), 0x2de9ce7b97d9569f); return list(((h - (h >> 32)) & 0xffffffff).to_bytes(4, "little"))
def own(k): return (list(k) + [0] * 4)[:4]
def le(n): return list(n.to_bytes(4, "little"))
def layout(R, load):
    """R: [key, value, hash]"""
    body, pos = [], []
    for k, v, h in R: pos.append(2048 + len(body)); body += le(len(k)) + le(len(v)) + k + v
    idx, tb = [], []
    for t in range(256):
        I = [i for i in range(len(R)) if R[i][2][0] == t]; n = load * len(I); T = [None] * n
        for i in I:
            s = int.from_bytes(bytes(R[i][2][1:]), "little") % n
            while T[s]: s = (s + 1) % n
            T[s] = R[i][2] + le(pos[i])
        idx += le(2048 + len(body) + len(tb)) + le(n)
        for x in T: tb += x or [0] * 8
    return idx + body + tb
def check(c):
    T = c.thorough; r = c.rng
    exe = c.build("cdb", ["cdb.c", "@src/cdb_read.c", ("@src/hashfunc/fasthash.c", ["-Dfasthash64=fasthash64_real", "-fno-sanitize=alignment"])])
    def K(keys="KeysV", vals="ValsV", n=2, loads="1,2"): return "CONSTANTS Keys <- %s\n Vals <- %s\n MaxRecs = %d\n Loads = {%s}\n" % (keys, vals, n, loads)
    def cfg(R, load, o=1, f=None): return {"own": o, "file": f if f is not None else layout(R, load), "R": R, "load": load, "intact": int(f is None)}
    OPEN = {"op": "open"}
    out = []
    for k in (K(n=2), K("KeysS", "ValsS", 3)) + ((K("KeysS", "ValsS", 4, "1"),) if T else ()):
        for g, ev in batch(c.explore("CdbF2" if "KeysS" not in k else "CdbF1", k, 1, tree=True), 40):
            R = [[list(a), list(b), own(a)] for a, b in g["R"]]
            out.append((cfg(R, g["load"]), [OPEN] + ev))
    k0 = K()
    c.conform("CdbF1", exe, out, F, CFG, k0, "every key in every small database")
    if c.viol: return
    # larger databases with the real hash function; an empty value, repeated keys, full tables
    out = []
    for q in range(24 if T else 6):
        n = r.choice([1, 5, 40, 120]); R = []
        for i in range(n):
            kk = r.choice(R)[0] if R and r.random() < .1 else rstr(r, range(256), r.choice([0, 1, 4, 8, 9, 30]))
            R.append([kk, rstr(r, range(256), r.choice([0, 1, 5, 50])), real(kk)])
        ks = [x[0] for x in R] + [rstr(r, range(256), r.choice([0, 1, 4, 8, 9, 30])) for _ in range(30)]
        out.append((cfg(R, r.choice([1, 2]), 0), [OPEN] + [{"op": "find", "k": k} for k in ks]))
    c.conform("CdbF1", exe, out, F, CFG, k0, "seeded databases, real hash")
    if c.viol: return
    # damaged files
    out = []
    base = [[1, 0, 0, 0, 5], [1, 0, 0, 0, 6], [1, 1], [2], [0], [1, 7, 0, 0, 1, 2, 3], [2, 0, 0, 1]]
    for q in range(700 if T else 120):
        R = [[k, rstr(r, range(256), r.choice([0, 3, 9])), own(k)] for k in r.sample(base, r.randint(1, len(base)))]; load = r.choice([1, 2]); f = layout(R, load); tabs = sorted({x[2][0] for x in R})
        spots = [8 * t + d for t in tabs for d in (0, 4)] + list(range(2048, len(f) - 3)); kind = r.random()
        if kind < .2: f = f[:r.choice([r.randrange(2040, 2056), r.randrange(2048, len(f) + 1), len(f) - 1])]
        elif kind < .3: f = f + [r.randrange(256) for _ in range(r.randint(1, 20))]
        else:
            for _ in range(r.choice([1, 1, 2, 4])):
                p = r.choice(spots[:2 * len(tabs)] if r.random() < .4 else spots)
                f[p:p + 4] = le(r.choice([0, 1, 2, 7, 8, len(f), len(f) - 1, len(f) - 4, len(f) - 7, len(f) - 8, len(f) - 9, 2048, 2**29, 2**31, 2**32 - 1, 2**32 - 8, 2**32 - 4, 2**32 - 16, r.getrandbits(32), r.randrange(len(f))]))
        ev = [OPEN] + ([{"op": "find", "k": k} for k in base + [[1], [255]]] if len(f) >= 2048 else [])
        out.append((cfg(R, load, 1, f), ev))
    c.conform("CdbF1", exe, out, F, CFG, k0, "damaged files")
