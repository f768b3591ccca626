F = {"init": [], "alloc": ["id", "n"], "huge": ["id", "n"], "free": ["id"], "fail": ["k"], "fini": []}
CFG = ["kind", "blk", "max", "unit", "msz", "mis"]
FINI = [{"op": "fini"}]
def fin(sc): return [(c, ev + FINI) for c, ev in sc]
def build(c, name, opt=False):
    import os
    from lib.vf import DRIVERS
    r = ["-include", os.path.join(DRIVERS, "allocdef.h")]
    return c.build(name, ["alloc.c", ("@src/mempool.c", r), ("@src/arena.c", r), "@src/memmgr.c"], defs=["-D__MAKE_OPTIMIZE__=1"] if opt else [])
