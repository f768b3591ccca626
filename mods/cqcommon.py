"""Client programs for the concurrent queue harnesses."""
DFS, BOUND, RANDOM = 0, 1, 2

def job(c, cap, kind, off, prog, slack, mode=None, bound=2, runs=None, secs=None, hist=3000, extra=None):
    if mode is None:
        mode = DFS
    cfg = {"cap": cap, "slack": slack}
    if extra: cfg.update(extra)
    return (cfg, mode, bound, runs or (2000000 if c.thorough else 60000), secs or (60 if c.thorough else 4), hist, [cap, kind, off, prog])

def algorithm(c, mod, invs, good, bad=()):
    """Exhaustive check of an algorithm model; `bad` are mutilated variants the monitor must reject
    (so that the check is known not to be vacuous)."""
    for ok, sets in ((True, good), (False, bad)):
        for consts in sets:
            text = "---- MODULE MCA ----\nEXTENDS %s\n%s\n====\n" % (mod, "\n".join("c%s == %s" % kv for kv in consts.items()))
            cfg = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n" + "".join("INVARIANT %s\n" % i for i in invs) + \
                  "".join("CONSTANT %s <- c%s\n" % (k, k) for k in consts)
            rc, txt = c.model_check("MCA", text, cfg, expect_ok=ok, count=ok, timeout=1500 if c.thorough else 300)
            if not ok and rc != 12:
                raise RuntimeError("%s %r: the broken variant was not rejected\n%s" % (mod, consts, txt[-3000:]))
    c.log("algorithm model %s: %d configurations, %d broken variants rejected" % (mod, len(good), len(bad)))
