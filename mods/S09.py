from mods.textcommon import *
F = {"avail": [], "process": ["t", "cpu"], "thread": ["t", "who", "cpu"], "mine": ["t", "cpu"]}
def check(c):
    T = c.thorough; r = c.rng
    exe = c.build("cpu", ["cpu.c", "@src/posix/linux_cpu.c"], libs=["-Wl,--wrap=sched_setaffinity,--wrap=sched_getaffinity,--wrap=pthread_setaffinity_np,--wrap=sysconf"])
    k = 'CONSTANTS Online = {1, 2, 4, 300}\n Threads = {1, 2, 3}\n Asked <- AskedV\n'
    sc = c.explore("CpuF1", k, 1, tree=True)
    k2 = 'CONSTANTS Online = {2}\n Threads = {1, 2, 3}\n Asked = {0, 1, 2}\n'
    sc += c.explore("CpuF", k2, 3 if T else 2, tree=True) + c.explore("CpuF", k2, 12)
    c.conform("CpuF1", exe, batch(sc, 10), F, ["n"], k, "every short history of bindings", timeout=600)
    if c.viol: return
    S = []
    for _ in range(300 if T else 40):
        n = r.choice([1, 2, 4, 300, 1024]); ops = []
        for _ in range(60):
            a = r.choice([r.randrange(n), r.randrange(n), n, r.randint(-5, 1100)])
            o = r.choice(["process", "thread", "mine", "mine"])
            e = {"op": o, "t": r.randint(1, 3), "cpu": a}
            if o == "thread": e["who"] = r.randint(1, 3)
            ops.append(e)
        S.append(({"n": n}, ops))
    c.conform("CpuF1", exe, S, F, ["n"], k.replace("300}", "300, 1024}"), "random histories", timeout=600)
