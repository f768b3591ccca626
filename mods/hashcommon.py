F = {"insf": ["k", "x"], "probef": ["k", "x"], "repf": ["k", "x"], "insg": ["k", "x"], "probeg": ["k", "x"], "repg": ["k", "x"], "newf": ["k"], "iterf": ["k"],
     "ins": ["k", "x"], "probe": ["k", "x"], "rep": ["k", "x"], "look": ["k"], "rem": ["k"], "remif": ["k"], "apply": ["k"], "iter": ["k"],
     "sorted": ["k"], "bucket": ["k"], "delete": ["k"]}
CFG = ["hm", "ls", "fm"]
SRC = ["hashtab.c", "@src/hashtable/hashtab.c", "@src/hashtable/hashtab_iter.c", "@src/memmgr.c"]
MAP = ["ins", "probe", "rep", "look", "rem", "remif", "apply"]
STARVED = ["insf", "probef", "repf", "insg", "probeg", "repg", "newf"]
ITERS = ["iter", "sorted", "bucket"]

def consts(keys, vals, mods, sizes, fills, ops):
    s = lambda x: "{" + ",".join(('"%s"' % y if isinstance(y, str) else str(y)) for y in x) + "}"
    return "CONSTANTS Keys = %s\n Vals = %s\n Mods = %s\n Sizes = %s\n Fills = %s\n OpNames = %s\n" % tuple(map(s, (keys, vals, mods, sizes, fills, ops)))

def fin(sc):
    return [(c, ev + [{"op": "delete", "k": 0}]) for c, ev in sc]

def rand(r, n, ln, iters):
    out = []
    for _ in range(n):
        nk = r.choice([3, 10, 60, 200])
        cfg = {"hm": r.choice([1, 3, 7, 1 << 20]), "ls": r.choice([1, 2, 3]), "fm": r.choice([10, 50, 80, 0])}
        ev, grow = [], 0.6
        for _ in range(ln):
            if r.random() < 0.03: grow = r.choice([0.2, 0.5, 0.8])
            k, x, z = r.randint(0, nk), r.randint(1, 99), r.random()
            if iters and z < 0.25: ev.append({"op": r.choice(ITERS + ["iterf"]), "k": k})
            elif z < 0.3: ev.append({"op": "look", "k": k})
            elif z < 0.32: ev.append({"op": "apply", "k": 0})
            elif z < 0.33: ev.append({"op": "remif", "k": r.randint(0, 1)})
            elif r.random() < grow: ev.append({"op": r.choice(["ins", "ins", "probe", "rep"]) + r.choice(["", "", "", "f", "g", "g"]), "k": k, "x": x})
            else: ev.append({"op": r.choice(["rem", "rem", "look"]), "k": k})
        out.append((cfg, ev))
    return fin(out)
