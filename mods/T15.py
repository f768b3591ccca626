import os, subprocess, sys
import lib.vf as vf
from mods.textcommon import *
F = {"parse": ["d"]}
CFG = ["k"]
TY = {"int": "INT", "short": "INT", "long": "INT", "uint": "UNS", "ushort": "UNS", "ulong": "UNS", "size": "UNS", "double": "DBL", "float": "DBL", "string": "STR", "bool": "BOO", "flag": "BOO", "boolean": "BOO",
      "callback": "CBK", "callback_arg": "CBK"}
def num(d): n = d.lstrip('-'); v = int(n, 16 if n.startswith('0x') else 8 if n.startswith('0') else 10); return -v if d.startswith('-') else v
def limbs(v): v &= (1 << 64) - 1; return [v >> 48, v >> 32 & 65535, v >> 16 & 65535, v & 65535]
def defval(t, d):
    if t in ("callback", "callback_arg"): return [0]
    if t in ("bool", "flag", "boolean"): return [1 if d.lower() in ("true", "yes") else 0]
    if t in ("double", "float"): return [round(float(d or 0) * 1000)]
    if t == "string": return list(d.encode())
    if t == "size" and d and d[-1] in "kKMGTP": return limbs(num(d[:-1]) << 10 * (" KMGTP".index(d[-1].upper())))
    return limbs(num(d) if d else 0)
class Table:
    """rows: (long or '-', short or '-', var, type, default); a row without names is a place holder"""
    def __init__(self, name, rows, directives=(), args=(), prefix=None):
        self.name, self.rows, self.dirs, self.args = name, rows, list(directives), list(args)
        self.prefix = prefix or "opt"
        self.cfg = {"k": 0, "help": int("nohelp" not in self.dirs), "ver": int("noversion" not in self.dirs), "noperm": int("nopermute" in self.dirs), "T": []}
        for l, s, v, t, d in rows:
            o = t.endswith("?"); t = t.rstrip("?"); ph = l == "-" and s == "-"
            self.cfg["T"].append({"l": [] if l == "-" else list(l.encode()), "s": 0 if s == "-" else ord(s), "t": {"flag": "bool", "boolean": "bool", "float": "double"}.get(t, t), "o": int(o), "d": defval(t, d), "ph": int(ph)})
    def build(self, c, sysgetopt=False, quote=0):
        d = os.path.join(c.work, self.name); os.makedirs(d, exist_ok=True)
        L = ["# generated", "   "] + ([] if "nodesc" in self.dirs else ['%description "A program"']) + ["%" + x for x in self.dirs if x != "nodesc"]
        for i, (l, s, v, t, df) in enumerate(self.rows):
            if l == "-" and s == "-": L.append("- - %s %s %s" % (v, t, ('"%s"' % df if t.rstrip("?") == "string" else df) if df else ""))
            elif t == "callback": L.append("%s %s %s %s 'help %d'" % (l, s, v, t, i))
            else:
                q = "'%s'" if quote and i % 2 else '"%s"'
                L.append("%s  %s\t%s %s %s \"help for %d\"" % (q % l if quote else l, s, v, t, q % df if t.rstrip("?") == "string" or quote else df or "-", i))
            if i % 3 == 0: L.append(" # comment")
        open(os.path.join(d, "o.in"), "w").write("\n".join(L) + "\n")
        r = subprocess.run([sys.executable, "-B", os.path.join(vf.REPO, "tools/mkgetopt.py"), "-H", "o.h", "-C", "o.c"] + self.args + ["o.in"], cwd=d, capture_output=True, text=True)
        files = [os.path.join(d, "o.h"), os.path.join(d, "o.c")]
        if r.returncode or not all(os.path.exists(f) for f in files):
            c.violation("mkgetopt rejects a table", c.save_replay({"kind": "generator", "table": "\n".join(L), "output": r.stdout[-2000:] + r.stderr[-2000:]}), sig="gen"); return None
        T = ["#define OPT %s_option" % self.prefix, "#define PFX(x) %s_##x" % self.prefix, "#define TABLE " + " ".join("%s(%d, %s)" % (TY[t.rstrip("?")], i + 1, v) for i, (l, s, v, t, df) in enumerate(self.rows)),
             "#define PRESENT " + " ".join("flag(%s);" % ("0" if l == "-" and s == "-" else "o.%s_present" % v) for l, s, v, t, df in self.rows)]
        open(os.path.join(d, "tab.h"), "w").write("\n".join(T) + "\n")
        # the generated code has to compile (warnings about types are errors)
        w = subprocess.run(["gcc", "-std=gnu11", "-Werror=incompatible-pointer-types", "-Werror=implicit-function-declaration", "-w"] + vf.INCS + ["-I" + d, "-c", "o.c", "-o", "o.o"], cwd=d, capture_output=True, text=True)
        if w.returncode:
            c.violation("generated code does not compile", c.save_replay({"kind": "generator", "table": "\n".join(L), "output": w.stderr[-3000:]}), sig="gen"); return None
        return c.build("gen_" + self.name, ["genopt.c", os.path.join(d, "o.c"), "@src/error.c"] + ([] if sysgetopt else ["@src/getopt_long.c"]), flags=["-I" + d], libs=["-Wl,--wrap=exit", "-lm"])
BASE = [("jobs", "j", "njobs", "int", "1"), ("use-proxy", "-", "use_proxy_p", "bool", "false"), ("foreground", "f", "fg_p", "bool", "true"), ("debug", "-", "debug", "string", "syslog"),
        ("log-level", "l", "loglevel", "int?", "0"), ("little-endian", "L", "le", "callback", ""), ("big", "B", "be", "callback_arg", "-"), ("-", "-", "somevar", "int", ""), ("-", "-", "v2", "bool", "true"),
        ("-", "-", "v3", "string", ""), ("-", "-", "v4", "float", "4.125"), ("disk-size", "d", "disksize", "size", "1M"), ("delay", "D", "delay", "double", "3.32"), ("-", "s", "sh", "short", "-7"),
        ("us", "-", "us", "ushort", "0x10"), ("-", "u", "ui", "uint", "010"), ("lo", "-", "lo", "long", "0"), ("ul", "U", "ul", "ulong", "5"), ("name", "n", "name", "string?", "x y")]
NUMS = [str(2 ** k + d) for k in (0, 7, 15, 16, 31, 32, 63, 64, 65) for d in (-1, 0, 1)] + ["0x" + "f" * k for k in (1, 4, 8, 16, 17)] + ["0777", "0", "00", "08", "abc", "12x", " 7", "+3", "--5", "- 5", "0x", "x", "-", "0xg", "9" * 30]
DBLS = ["0", "1", "1.5", "-2.25", "3.125", ".5", "7.", "12.5kg", "abc", "-", "-.25", "100000.001", "z1"]
SIZES = ["0", "1", "1k", "2K", "3M", "4G", "5T", "6P", "7b", "8B", "9E", "k", "1q", "16383P", "16384P", "16777216T", "16777215T", "18446744073709551615", "18446744073709551616", "18446744073709551615k", "18014398509481983k", "18014398509481984k", "0x10k", "010k", "-1", "-1k", " 5M", "99999999999999999999999"]
def args_for(r, t):
    if t == "size": return r.choice(SIZES)
    if t in ("double", "float"): return r.choice(DBLS)
    if t in ("string", "callback_arg"): return r.choice(["a", "x=y", "-v", "--", "two words", "1" * 300])
    return r.choice(["", "", "-"]) + r.choice(NUMS)
MAXIMA = {str(2 ** k - 1) for k in (15, 16, 31, 32, 63, 64)} | {"0x" + "f" * k for k in (4, 8, 16)}   # counting on from here is not specified
def words(r, tab, n):
    w = []
    for _ in range(n):
        if r.random() < .2: w.append(r.choice(["file", "-", "x", "a b", "--", "--nosuch", "-Z", "--hel"] if r.random() < .3 else ["file", "x", "y"])); continue
        row = r.choice(tab.rows)
        l, s, v, t, d = row; o = t.endswith("?"); t = t.rstrip("?")
        if l == "-" and s == "-": continue
        arg = None if t in ("bool", "flag", "boolean", "callback") or (o and r.random() < .5) else args_for(r, t)
        if arg == "" or (o and arg in MAXIMA): arg = "1"
        if o and arg is None and t in ("double", "float"): arg = "1"
        if s != "-" and (l == "-" or r.random() < .5):
            if arg is None: w.append("-" + s)
            elif o or r.random() < .5: w.append("-" + s + arg)
            else: w += ["-" + s, arg]
        else:
            name = l if r.random() < .8 else l[:r.randint(1, len(l))]
            if arg is None: w.append("--" + name)
            elif o or r.random() < .5: w.append("--" + name + "=" + arg)
            else: w += ["--" + name, arg]
    return w
def ev(ws): return {"op": "parse", "d": list("".join(x + "\0" for x in ws).encode())}
def check(c):
    T = c.thorough; r = c.rng
    k0 = "CONSTANTS Dummy = 0\n"
    c.model_check("MCG", "---- MODULE MCG ----\nEXTENDS GenOptF2\nVARIABLE v\nI == v \\in G!Ints\nN == UNCHANGED v\n====\n", "CONSTANTS Dummy = 0\nINIT I\nNEXT N\n")   # its theorems
    tab = Table("base", BASE)
    exe = tab.build(c)
    if c.viol: return
    evs = []
    for i, (l, s, v, t, d) in enumerate(BASE):     # every option with every argument, in every form
        o = t.endswith("?"); t = t.rstrip("?")
        if l == s: continue
        al = [None] if t in ("bool", "callback") else SIZES if t == "size" else DBLS if t == "double" else ["a", "-v", "--", "x y"] if t in ("string", "callback_arg") else [n for x in NUMS for n in (x, "-" + x)]
        for a in al + ([None] if o else []):
            forms = []
            if l != "-": forms += [["--" + l]] if a is None else [["--" + l + "=" + a]] + ([] if o else [["--" + l, a]])
            if s != "-": forms += [["-" + s], ["-f" + s]] if a is None else [["-" + s + a]] + ([] if o else [["-" + s, a], ["-f" + s, a]])
            for f in forms: evs += [ev(f), ev(["x"] + f + ["y"] + f), ev([])] if t in ("bool", "string") or r.random() < .2 else [ev(f)]
        if t not in ("bool", "callback") and not o: evs += [ev(["--" + l] if l != "-" else ["-" + s])]
    W = ["-f", "-l", "-l5", "-j3", "--", "x", "--use-proxy", "-L", "-Bq", "--debug=a", "--bogus"]
    n = 3 if T else 2
    def rec(p, k):
        evs.append(ev(p))
        if k:
            for x in W: rec(p + [x], k - 1)
    rec([], n)
    evs += [ev(w) for w in (["--help"], ["-h"], ["-V"], ["--version"], ["-L", "--help", "-j1"], ["-Bx", "-V"], ["--", "-h"], ["x", "-h"])]
    c.conform("GenOptF1", exe, [(tab.cfg, evs[i:i + 60]) for i in range(0, len(evs), 60)], F, CFG, k0, "every option with every argument")
    if c.viol: return
    tabs = [Table("perm", BASE, ["nopermute", "prefix foo", "nohelp"], ["-P", "bar"], "foo"), Table("short", [("-", "a", "a", "bool", "false"), ("-", "-", "s", "string", ""), ("-", "-", "z", "size", ""), ("-", "-", "d", "double", "")], ["nohelp", "noversion", "nodesc"]),
            Table("own", [("help", "h", "help", "string", "none"), ("version", "V", "version", "int", "2")], ["nohelp", "noversion"], ["-P", "bar"], "bar")]
    for q in range(12 if T else 4):
        rows, used, us = [], {"help", "version"}, {"h", "V"}
        for i in range(r.randint(1, 14)):
            t = r.choice(list(TY)); 
            if t not in ("bool", "flag", "boolean", "callback", "callback_arg", "double", "float") and r.random() < .25: t += "?"
            l = r.choice(["-", "a", "al", "alpha", "beta", "be", "b-c", "gamma", "x1", "out", "output", "verbose", "n", "num"]); s = r.choice("-abcdegijklmnopqrstuvwxyzABC0123")
            if l in used: l = "-"
            if s in us: s = "-"
            if l != "-": used.add(l)
            if s != "-": us.add(s)
            b = t.rstrip("?")
            d = {"size": ["0", "1", "4k", "2G", "0x10", "1T"], "double": ["1.5", "0", "-2.125"], "float": ["0.25"], "string": ["d", "a b c", "x"], "bool": ["true", "false", "no", "yes"], "flag": ["True"], "boolean": ["false"], "callback": [""], "callback_arg": ["-"]}.get(b, ["0", "1", "0x7f", "017", "100"] + ([] if b.startswith("u") else ["-1"]))
            if l == "-" and s == "-" and b.startswith("callback"): continue
            rows.append((l, s, "v%d" % i, t, r.choice(d)))
        if rows: tabs.append(Table("rnd%d" % q, rows, r.sample(["nopermute", "nohelp", "noversion", "nodesc", "prefix mine"], r.randint(0, 3)), prefix=None))
        if rows and "prefix mine" in tabs[-1].dirs: tabs[-1].prefix = "mine"
    sc = []
    for i, t in enumerate(tabs):
        exe = t.build(c, sysgetopt=i % 2 == 1, quote=i % 3 == 1)
        if c.viol: return
        sc = [(t.cfg, [ev(words(r, t, r.choice([0, 1, 2, 3, 5, 9]))) for _ in range(20)]) for _ in range(40 if T else 8)]
        c.conform("GenOptF1", exe, sc, F, CFG, k0, "seeded table %d" % i)
        if c.viol: return
