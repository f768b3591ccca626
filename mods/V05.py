import math
F = {"ins": ["x"], "min": ["x"], "rem": ["x"], "bulk": ["n", "a", "k"]}
CFG = ["ty", "mx", "init"]
def check(c):
    exe = c.build("heapd", ["heapd.cpp"]); T = c.thorough; r = c.rng
    k = "CONSTANTS Vals = {1,2,3}\n Types = {0,1,2}\n Max = {0,1,5}\n"
    c.conform("HeapF", exe, c.explore("HeapF", k, 9), F, CFG, k, "transition cover")
    if c.viol: return
    k2 = "CONSTANTS Vals = {1,2,3}\n Types = {0}\n Max = {9}\n"
    sc = c.explore("HeapF", k2, 7 if T else 5, tree=True)
    if len(sc) > (60000 if T else 8000): sc = r.sample(sc, 60000 if T else 8000)
    c.conform("HeapF", exe, sc, F, CFG, k2, "every history of given length")
    if c.viol: return
    g = []
    for _ in range(3000 if T else 300):
        mx = r.choice([3, 8, 20, 60]); m = r.choice([2, 5, 1000]); n = r.randint(0, mx); ini = [r.randint(0, m) for _ in range(n)]; ev = []; up = .5
        for _ in range(120):
            if r.random() < .06: up = r.choice([.2, .5, .8])
            if r.random() < up:
                ev.append({"op": "ins", "x": r.randint(0, m)}); n = min(mx, n + 1)
            else:
                o = r.choice(["min", "rem"])
                x = r.choice([r.randint(-1, max(n, 1)), n - 1, 0])
                ev.append({"op": o, "x": x if o == "rem" else 0})
                if o == "min" or 0 <= x < n: n = max(0, n - 1)
        g.append(({"ty": r.randint(0, 2), "mx": mx, "init": ini}, ev + [{"op": "min", "x": 0}] * (n + 1)))
    c.conform("HeapF", exe, g, F, CFG, k, "seeded histories")
    if c.viol: return
    g = []
    for ty in (0, 1, 2):
        ev = []
        for n in [1, 2, 127, 128, 129, 255, 256, 257, 1000, 32767, 32769, 65535, 65537, 70001] + [r.randint(1, 3000) for _ in range(60 if T else 10)] + ([300007, 1000003] if T else []):
            a = r.randint(1, n)
            while math.gcd(a, n) != 1: a = r.randint(1, n)
            ev.append({"op": "bulk", "n": n, "a": r.choice([a, 1, n - 1 or 1]), "k": r.choice([0, n // 2, n, r.randint(0, n)])})
        g.append(({"ty": ty, "mx": 3, "init": []}, ev))
    c.conform("HeapF", exe, g, F, CFG, k, "heaps of any size")
