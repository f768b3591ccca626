from mods.textcommon import *
F = {"go": ["pwd", "fail", "um", "closed"]}
def check(c):
    T = c.thorough; r = c.rng
    exe = c.build("daemonf", ["daemonf.c", "@src/daemon.c", "@src/posix/syserror.cpp"], libs=["-Wl,--wrap=fork"])
    o = lambda s: "<<%s>>" % ",".join(str(x) for x in s.encode())
    k = "CONSTANTS Pwds <- PwdsV\n Fails = {0, 1, 2}\n Masks = {0, 18, 63}\n Closed = {0, 1, 2, 3, 4, 5, 6, 7}\n"
    sc = c.explore("DaemonF1", k, 1, tree=True)
    c.conform("DaemonF1", exe, batch(sc, 3), F, ["x"], k, "every way of starting", timeout=600)
