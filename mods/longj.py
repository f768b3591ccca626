"""Job and work managers with any number of threads and jobs (specs/LongJ.tla)."""
import os
F = {"put": ["n", "f", "to"]}
CFG = ["kind", "n", "cpus"]
def check(c, kind):
    r = c.rng; T = c.thorough; cpus = os.sysconf("SC_NPROCESSORS_ONLN")
    src = ["longj.c", "@src/posix/job.c" if kind == 0 else "@src/posix/work.c", "@src/posix/linux_cpu.c", "@src/error.c"]
    exe = c.build("longj", src, defs=("-DJK=%d" % kind,), libs=("-lpthread",))
    k = "CONSTANTS Kinds = {%d}\n Threads = {0,1,2,3}\n Ns = {0,1,2,5}\n Cpus = %d\n" % (kind, cpus)
    c.conform("LongJ", exe, c.explore("LongJ", k, 2 if not T else 3), F, CFG, k, "few jobs and threads, real scheduling")
    if c.viol: return
    sc = []
    for n, jobs in [(1, 300), (2, 70000), (130, 600), (257, 900), (300, 3000), (1, 66000), (0, 5000), (cpus + 1, 70000)] + ([(1000, 5000), (3, 200000)] if T else []):
        ev = []; left = jobs
        while left > 0:
            m = min(left, r.choice([1, 255, 256, 257, 1000, 1025, 33000, jobs])); left -= m
            ev.append({"op": "put", "n": m, "f": r.choice([0, 1, 1, 2, 3]), "to": r.choice([-1, -1, r.randint(0, max(n - 1, 0)), n, n + 5, 255, 256])})
            if len(ev) > 12: ev.append({"op": "put", "n": left, "f": 1, "to": -1}); left = 0
        sc.append(({"kind": kind, "n": n, "cpus": cpus}, ev + [{"op": "wait"}]))
    for n, f in ((1, 1), (2, 1), (1, 2)): sc.append(({"kind": kind, "n": n, "cpus": cpus}, [{"op": "put", "n": m, "f": f, "to": -1} for m in (256, 65536)] + [{"op": "wait"}]))
    c.conform("LongJ", exe, sc, F, CFG, k, "any number of jobs and threads")
