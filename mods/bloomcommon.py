F = {k: ["x"] for k in ("add", "find", "rem", "remabs")}
CFG = ["typ", "n", "e", "seed"]
SRC = ["bloomf.c", "@src/hashtable/bloom.c", "@src/humanize.c", "@src/strcopy.c"]
CONS = "CONSTANTS Els = {%s}\n Types = {%s}\n Caps = {%s}\n Errs = {%s}\n MaxCount = %d\n"
def build(c): return c.build("bloomf", SRC, libs=("-lm", "-lpthread"))
def e(op, x): return {"op": op, "x": x}

def rand(r, n, ln, types, rem):
    out = []
    for _ in range(n):
        t = r.choice(types)
        cfg = {"typ": t, "n": r.choice([1, 2, 3, 5, 8, 20, 100, 1000]), "e": r.randint(0, 6), "seed": r.randint(1, 1 << 30)}
        ne = r.choice([2, 5, 20, 200]); ev, cnt, add = [], {}, .6
        for _ in range(ln):
            if r.random() < .03: add = r.choice([.2, .4, .6, .9])
            x, z = r.randint(0, ne), r.random()
            if z < .25: ev.append(e("find", x))
            elif z < .3 and cnt: ev.append(e("find", r.choice(sorted(cnt))))
            elif r.random() < add or not rem: ev.append(e("add", x)); cnt[x] = cnt.get(x, 0) + 1
            elif cnt and r.random() < .8:
                x = r.choice(sorted(cnt)); ev.append(e("rem", x)); cnt[x] -= 1
                if not cnt[x]: del cnt[x]
            elif t == 0:
                if x not in cnt: ev.append(e("remabs", x))
            else: ev.append(e("rem", x))
        ev += [e("find", x) for x in sorted(cnt)]
        out.append((cfg, ev))
    return out
