from mods.textcommon import *
F = {"alloc": ["n", "fail"], "free": ["p"], "null": [], "info": []}
def check(c):
    T = c.thorough; r = c.rng
    exe = c.build("memmgr", ["memmgr.c", "@src/memmgr.c"], libs=["-Wl,--wrap=malloc,--wrap=free"])
    k = 'CONSTANTS Kinds = {1, 2, 3, 4}\n Sizes = {0, 1, 4096}\n MaxLive = 2\n'
    sc = c.explore("MemMgrF", k, 5 if T else 4, tree=True)
    c.conform("MemMgrF", exe, sc, F, ["k"], k, "every short history of requests", timeout=600)
    if c.viol: return
    S = []
    for _ in range(400 if T else 60):
        live = []; nx = 1; ops = []
        for _ in range(200):
            if live and r.random() < .45: ops.append({"op": "free", "p": live.pop(r.randrange(len(live)))})
            else:
                f = int(r.random() < .1); ops.append({"op": "alloc", "n": r.randrange(0, 5000), "fail": f})
                if not f: live.append(nx); nx += 1
        S.append(({"k": r.randint(1, 4)}, ops))
    c.conform("MemMgrF", exe, S, F, ["k"], k, "long random histories", timeout=600)
