def batch(scripts, k=100):
    """Join single-call scripts of one configuration into longer ones (the model is stateless)."""
    by = {}
    for cfg, ev in scripts: by.setdefault(repr(sorted(cfg.items())), (cfg, []))[1].extend(ev)
    return [(cfg, evs[i:i + k]) for cfg, evs in by.values() for i in range(0, len(evs), k)]
def rstr(r, alpha, n): return [r.choice(alpha) for _ in range(n)]

def lengths(c, small=10, big=2):
    """Lengths at which counters of 8 and 16 bits and the usual fixed buffers run out."""
    r = c.rng
    L = [255, 256, 257, 300, 511, 512, 513, 600, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8193]
    return (L if c.thorough else sorted(r.sample(L, min(small, len(L))))) + [65535, 65536, 65537, 66000, 70001][: 5 if c.thorough else 0] + ([] if c.thorough else r.sample([65536, 65537, 66000, 70001], big))
