"""Queues of any size and age, used by one thread (specs/LongQ.tla)."""
F = {"put": ["n", "m"], "get": ["n", "m"], "age": ["n", "m"]}
CFG = ["kind", "req", "cap", "pt"]
FQ, SPSC, MPMC, RING, SYNCQ = range(5)
STATIC = [2, 129, 257, 300, 40000, 65537, 70000]

def pow2(n):
    p = 1
    while p < n: p *= 2
    return p

def scripts(c, qk):
    r = c.rng; T = c.thorough; out = []
    fixed = {RING: [(256, 255), (65536, 65535), (131072, 131071)], MPMC: [(257, 512), (65536, 65536), (70000, 131072)], SYNCQ: [(300, 300), (65537, 65537), (70000, 70000)]}.get(qk) or [(300, 299), (65537, 65536), (70000, 69999)]
    for req, cap in fixed:
        for kind in {RING: (0, 1, 2, 3), SYNCQ: (0,)}.get(qk, (0, 1)):
            m = cap // 2 if qk == RING else 1; h = cap // 2
            x = 0 if qk == SYNCQ else 1
            for pt in ((0, 1) if qk == RING else (0,)):
                out.append(({"kind": kind, "req": req, "cap": cap, "pt": pt}, [{"op": o, "n": n, "m": 1 if n > cap else m} for o, n in
                    (("put", h), ("get", h), ("put", cap + x), ("get", h), ("put", h), ("get", cap + x))]))
    for _ in range(120 if T else 24):
        if qk == RING:
            cap = pow2(r.choice([2, 4, 16, 128, 256, 512, 1024, 32768, 65536, 131072])) ; req = cap; cap -= 1; kind = r.randint(0, 7); pt = r.randint(0, 1)
        elif qk == MPMC:
            req = r.choice([2, 100, 129, 256, 257, 300, 1000, 32768, 40000, 65536, 65537, 70000]); cap = pow2(req); kind = r.randint(0, 1); pt = 0
        else:
            req = r.choice(STATIC); kind = r.randint(0, 1) if qk != SYNCQ else 0; pt = 0; cap = req if qk == SYNCQ else req - 1
            if qk in (FQ, SPSC) and kind == 1 and r.random() < .7: req = r.choice([r.randint(2, 600), r.randint(30000, 140000)]); cap = req - 1
        n = 0; ev = []
        for _ in range(14):
            o = r.choice(["put", "get"]); room = cap - n if o == "put" else n
            k = r.choice([room, room, room + 1, room // 2, r.randint(0, room), 1, min(room, 256), min(room, 65536), cap])
            m = 1
            if qk == RING: m = r.choice([1, 2, 3, 4, 5, 7, 8, 31, 64, 255, 256, 1000, 65535, max(k, 1)]); m = max(1, min(m, max(k, 1)))
            if qk == SYNCQ: k = min(k, room)
            ev.append({"op": o, "n": k, "m": m})
            # what the specification says will have moved
            g = k if k <= room else room if pt == 1 else m * (room // m)
            n += g if o == "put" else -g
        out.append(({"kind": kind, "req": req, "cap": cap, "pt": pt}, ev))
    return out

def check(c, qk):
    exe = c.build("longq", ["longq.c"], defs=("-DQK=%d" % qk,))
    k = "CONSTANTS Kinds = {0}\n Sizes = {1,2,3}\n Ns = {0,1,2,3,4}\n"
    sc = c.explore("LongQ", k, 9)           # the specification alone: small sizes
    c.conform("LongQ", exe, scripts(c, qk), F, CFG, k, "queues of any size, one thread")
    if c.viol or qk not in (RING, MPMC) or (qk == MPMC and not c.thorough): return
    # the position counters at their turn: 2^32 items have passed through (a queue's age must not show)
    exe = c.build("longage", ["longq.c"], defs=("-DQK=%d" % qk,), san=False, opt="-O2")
    r = c.rng; sc = []
    for kind in ((0, 1, 2, 3) if qk == RING else (0, 1)):
        req = r.choice([2, 8, 64, 256, 4096]); cap = req - 1 if qk == RING else req
        ev = [{"op": "age", "n": 65536, "m": r.randint(1, cap + 3)}]
        for _ in range(10): ev += [{"op": "put", "n": r.choice([1, cap, cap, max(1, cap // 2), cap + 1]), "m": 1}, {"op": "get", "n": r.choice([1, cap, cap, max(1, cap // 2), cap + 1]), "m": 1}]
        sc.append(({"kind": kind, "req": req, "cap": cap, "pt": 0}, ev + [{"op": "get", "n": cap, "m": 1}]))
    c.conform("LongQ", exe, sc, F, CFG, k, "queues after 2^32 items", shards=len(sc), timeout=850)
