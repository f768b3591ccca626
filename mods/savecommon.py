WR = ["mkostemp", "mkstemp", "open", "ftruncate", "write", "pwrite", "mmap", "munmap", "msync", "fsync", "fdatasync", "close", "rename", "unlink", "malloc", "calloc", "realloc", "free", "fstat"]
F = {"load": ["mm"], "loadm": ["mm", "w", "k"], "grow": ["n"], "flip": ["p", "m"], "flips": ["l"], "swap": ["p", "q"], "trunc": ["n"], "cut": ["p", "n"], "ext": ["n", "v"], "flipall": ["st", "off"],
     "truncall": ["st"], "extall": ["n"], "put": ["v", "k", "m"]}
CFG = ["k", "n", "e", "seed"]
SRC = ["savef.c", "@src/hashtable/bloom.c", "@src/hashtable/bloom_marshal.c", "@src/hashtable/xorfilter.c", "@src/hashtable/xorfilter_marshal.c", "@src/humanize.c", "@src/strcopy.c"]
def build(c): return c.build("savef", SRC, libs=tuple("-Wl,--wrap=" + w for w in WR) + ("-lsodium", "-lm", "-lpthread"))
