"""Engine shared by all checks: build drivers from /repo's working tree, run TLC
(exploration, simulation, trace validation), run drivers, report, write evidence."""
import hashlib, json, os, random, re, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPECS = os.path.join(V, "specs")
DRIVERS = os.path.join(V, "drivers")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4

SAN = ["-fsanitize=address,undefined", "-fno-sanitize=alignment,shift-base,nonnull-attribute,pointer-overflow",
       "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
DEFS = ["-D__linux__=1", "-D__amd64__=1", "-D_GNU_SOURCE=1"]
INCS = ["-I" + os.path.join(REPO, d) for d in ("src", "src/hashtable", "inc")] + ["-I" + DRIVERS]


class CheckError(Exception):
    """The check itself failed (tool error)."""


class Violation(Exception):
    def __init__(self, reason, replay, sig=""):
        self.reason, self.replay, self.sig = reason, replay, sig
        super().__init__(reason)


def rmtree(p):
    shutil.rmtree(p, ignore_errors=True)


def brief(x, n=40):
    """A value for the evidence file: long lists and texts cut short."""
    if isinstance(x, dict): return {k: brief(v, n) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [brief(v, n) for v in x[:n]] + (["... %d in all" % len(x)] if len(x) > n else [])
    if isinstance(x, str) and len(x) > 4 * n: return x[:4 * n] + "... %d in all" % len(x)
    return x

class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.thorough = tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.work = os.path.join(V, ".work", "%s-%s-%d" % (pid, tier, os.getpid()))
        rmtree(self.work)
        os.makedirs(self.work)
        self.outdir = os.path.join(V, "out", pid)
        os.makedirs(self.outdir, exist_ok=True)
        self.states = 0          # distinct states TLC found in spec model checking
        self.transitions = 0     # states generated by TLC in spec model checking
        self.validated = 0       # implementation traces accepted by the spec
        self.events = 0          # events in them
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.viol = []
        self.known_hits = set()
        self.rng = random.Random("%s/%d" % (pid, self.seed))
        self.ntlc = 0
        self.known = load_known(pid)

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    # ------------------------------------------------------------ building
    def build(self, name, sources, cxx=False, san=True, defs=(), flags=(), libs=("-lpthread",), opt="-O1"):
        """sources: paths relative to drivers/ (harness) or '@src/x.c' relative to /repo."""
        out = os.path.join(self.work, name)
        objs, jobs = [], []
        for i, s in enumerate(sources):
            extra = []
            if isinstance(s, tuple):
                s, extra = s
            p = os.path.join(REPO, s[1:]) if s.startswith("@") else os.path.join(DRIVERS, s)
            o = os.path.join(self.work, "%s.%d.o" % (name, i))
            isxx = p.endswith((".cpp", ".cc"))
            cc = ["g++", "-std=c++17"] if isxx else ["gcc", "-std=gnu11"]
            cmd = cc + [opt, "-g1", "-w"] + (SAN if san else []) + DEFS + list(defs) + INCS + list(flags) + extra + ["-c", p, "-o", o]
            jobs.append(cmd)
            objs.append(o)
        with ThreadPoolExecutor(NCPU) as ex:
            for cmd, r in zip(jobs, ex.map(lambda c: subprocess.run(c, capture_output=True, text=True), jobs)):
                if r.returncode:
                    raise CheckError("compile failed: %s\n%s" % (" ".join(cmd), r.stderr[-4000:]))
        link = ["g++" if (cxx or any(isinstance(s, str) and s.endswith(".cpp") for s in sources)) else "gcc"] + (SAN if san else []) + objs + list(flags) + list(libs) + ["-o", out]
        r = subprocess.run(link, capture_output=True, text=True)
        if r.returncode:
            raise CheckError("link failed: %s\n%s" % (" ".join(link), r.stderr[-4000:]))
        return out

    # ------------------------------------------------------------ TLC
    def tlc(self, root, text, cfg, workers=None, extra=(), timeout=800, xmx="6g", jvm=()):
        self.ntlc += 1
        d = os.path.join(self.work, "tlc%d" % self.ntlc)
        os.makedirs(d)
        with open(os.path.join(d, root + ".tla"), "w") as f:
            f.write(text)
        with open(os.path.join(d, root + ".cfg"), "w") as f:
            f.write(cfg)
        cmd = ["java", "-Xmx" + xmx, "-Xss16m", "-XX:+UseParallelGC", "-DTLA-Library=" + SPECS] + list(jvm) + \
              ["-cp", CP, "tlc2.TLC", "-config", root + ".cfg", "-workers", str(workers or NCPU),
               "-metadir", os.path.join(d, "states"), "-noGenerateSpecTE"] + list(extra) + [root + ".tla"]
        out = os.path.join(d, "out.txt")
        try:
            with open(out, "w") as f:
                r = subprocess.run(cmd, cwd=d, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = -1
        return rc, out, d

    def model_check(self, root, text=None, cfg=None, expect_ok=True, count=True, **kw):
        """Exhaustive check of a self-contained specification."""
        if text is None:
            text = open(os.path.join(SPECS, root + ".tla")).read()
        rc, out, d = self.tlc(root, text, cfg, **kw)
        txt = tail(out, 20000)
        gen, dist = tlc_counts(txt)
        if rc != 0 and expect_ok:
            raise CheckError("model check of %s failed rc=%d\n%s" % (root, rc, txt[-6000:]))
        if count:
            self.states += dist
            self.transitions += gen
        rmtree(d)
        return rc, txt

    def explore(self, model, consts, maxlen, tree=False, view=True, timeout=600):
        """Model-check `model` (module with Cfgs/InitState/Events/After/Good/Abs) and return the
        scripts (cfg, [events]) that cover every transition of its reachable graph up to depth
        maxlen (tree=True: every operation sequence of exactly that length)."""
        root = "MC" + model
        text = ("---- MODULE %s ----\nEXTENDS %s\nVARIABLES s, hist, prev, cfg\n"
                "INSTANCE Explore WITH MaxLen <- %d, Tree <- %s\n====\n" % (root, model, maxlen, "TRUE" if tree else "FALSE"))
        cfg = "INIT XInit\nNEXT XNext\nINVARIANT XGood\nINVARIANT XEmit\nCHECK_DEADLOCK FALSE\n"
        if not tree:
            cfg += "VIEW XView\n"
        cfg += consts
        rc, out, d = self.tlc(root, text, cfg, timeout=timeout)
        if rc != 0:
            raise CheckError("exploration of %s failed rc=%d\n%s" % (model, rc, tail(out, 6000)))
        gen, dist = tlc_counts(tail(out, 20000))
        self.states += dist
        self.transitions += gen
        scripts = []
        for ln in open(out):
            if ln.startswith('<<"T", "'):
                j = json.loads(json.loads(ln.rstrip()[len('<<"T", '):-2]))
                scripts.append((j["cfg"], j["ev"] or []))
        rmtree(d)
        return scripts if tree else drop_prefixes(scripts)

    def simulate(self, model, consts, depth, num, timeout=300):
        """Random behaviours of the specification (TLC -simulate, seeded)."""
        root = "SIM" + model
        text = ("---- MODULE %s ----\nEXTENDS %s\nVARIABLES s, hist, prev, cfg\n"
                "INSTANCE Explore WITH MaxLen <- %d, Tree <- TRUE\n====\n" % (root, model, depth))
        cfg = "INIT XInit\nNEXT XNext\nINVARIANT XGood\nINVARIANT XEmit\nCHECK_DEADLOCK FALSE\n" + consts
        rc, out, d = self.tlc(root, text, cfg, workers=1, timeout=timeout,
                              extra=["-simulate", "num=%d" % num, "-depth", str(depth + 1), "-seed", str(self.seed)])
        if rc != 0:
            raise CheckError("simulation of %s failed rc=%d\n%s" % (model, rc, tail(out, 6000)))
        scripts = []
        for ln in open(out):
            if ln.startswith('<<"T", "'):
                j = json.loads(json.loads(ln.rstrip()[len('<<"T", '):-2]))
                scripts.append((j["cfg"], j["ev"] or []))
        m = re.findall(r"([\d,]+) states checked", tail(out, 4000))
        if m:
            self.transitions += int(m[-1].replace(",", ""))
        rmtree(d)
        return scripts

    def validate(self, model, traces, consts="", timeout=800, root=None, template=None, xmx="8g"):
        """traces: list of (cfg, events). Returns list of (index, position) rejected by the spec."""
        if not traces:
            return []
        bad = self._validate(model, traces, consts, timeout, template, xmx)
        if bad:
            # repeat on the rejected ones only; report only what a re-run repeats
            sub = [traces[i] for i in bad]
            bad2 = self._validate(model, sub, consts, timeout, template, xmx)
            bad = [bad[i] for i in bad2]
        self.validated += len(traces) - len(bad)
        self.events += sum(len(t[1]) for t in traces)
        return [(i, self._position(model, traces[i], consts, template)) for i in bad[:5]]

    def _validate(self, model, traces, consts, timeout, template, xmx):
        self.ntlc += 1
        tf = os.path.join(self.work, "traces%d.ndjson" % self.ntlc)
        with open(tf, "w") as f:
            for c, ev in traces:
                f.write(json.dumps({"cfg": c, "ev": ev}) + "\n")
        root = "VAL" + model
        text = ("---- MODULE %s ----\nEXTENDS %s, Json\nVARIABLES t, i, s\n"
                "CONSTANT TraceFile\nTraces == ndJsonDeserialize(TraceFile)\nINSTANCE %s\n====\n" % (root, model, template or "Validate"))
        cfg = "INIT VInit\nNEXT VNext\nINVARIANT VAccept\nCHECK_DEADLOCK FALSE\nCONSTANT TraceFile = \"%s\"\n" % tf + consts
        rc, out, d = self.tlc(root, text, cfg, timeout=timeout, xmx=xmx)
        acc = set()
        for ln in open(out):
            if ln.startswith('<<"ACC", '):
                acc.add(int(ln[9:-3]))
        if rc != 0:
            raise CheckError("trace validation of %s failed rc=%d\n%s" % (model, rc, tail(out, 6000)))
        rmtree(d)
        os.unlink(tf)
        return [k for k in range(len(traces)) if k + 1 not in acc]

    def _position(self, model, trace, consts, template):
        self.ntlc += 1
        tf = os.path.join(self.work, "one%d.ndjson" % self.ntlc)
        with open(tf, "w") as f:
            f.write(json.dumps({"cfg": trace[0], "ev": trace[1]}) + "\n")
        root = "POS" + model
        text = ("---- MODULE %s ----\nEXTENDS %s, Json\nVARIABLES t, i, s\n"
                "CONSTANT TraceFile\nTraces == ndJsonDeserialize(TraceFile)\nINSTANCE %s\n====\n" % (root, model, template or "Validate"))
        cfg = "INIT VInit\nNEXT VNext\nINVARIANT VPos\nCHECK_DEADLOCK FALSE\nCONSTANT TraceFile = \"%s\"\n" % tf + consts
        rc, out, d = self.tlc(root, text, cfg, workers=1, timeout=300)
        best = 0
        for ln in open(out):
            if ln.startswith('<<"POS", '):
                best = max(best, int(ln[9:-3]))
        return best

    # ------------------------------------------------------------ drivers
    def run_driver(self, exe, scripts, fields, cfgfields, shards=None, timeout=120, env=None, args=(), pre=None):
        """Run scripts [(cfg, [op events])] through a driver. Returns traces [(cfg, [events with results])].
        A crash/hang raises Violation (after repeating it)."""
        shards = shards or max(1, min(NCPU, len(scripts) // 50 + 1))
        idx = [list(range(k, len(scripts), shards)) for k in range(shards)]
        def one(k):
            return self._drive(exe, [scripts[i] for i in idx[k]], fields, cfgfields, "%s.%d" % (os.path.basename(exe), k), timeout, env, args)
        res = [None] * len(scripts)
        with ThreadPoolExecutor(shards) as ex:
            for k, out in enumerate(ex.map(one, range(shards))):
                traces, fail = out
                for i, t in zip(idx[k], traces):
                    res[i] = t
                if fail:
                    bad = scripts[idx[k][len(traces)]]
                    # repeat in isolation
                    t2, fail2 = self._drive(exe, [bad], fields, cfgfields, "re.%d" % k, timeout, env, args)
                    if not fail2:
                        # repeat whole shard (state-dependent)
                        t3, fail3 = self._drive(exe, [scripts[i] for i in idx[k]], fields, cfgfields, "re3.%d" % k, timeout * 2, env, args)
                        if not fail3:
                            for i, t in zip(idx[k], t3):
                                res[i] = t
                            continue
                        fail2 = fail3
                    rp = self.save_replay({"kind": "driver-failure", "cfg": bad[0], "script": bad[1], "failure": fail2})
                    self.violation("driver failure: " + fail2.strip().splitlines()[0][:200], rp, sig=sig_of(fail2))
        return [r for r in res if r is not None]

    def _drive(self, exe, scripts, fields, cfgfields, tag, timeout, env, args):
        lines = []
        for cfg, ev in scripts:
            lines.append("@ " + " ".join(enc(cfg[f]) for f in cfgfields))
            for e in ev:
                lines.append(e["op"] + "".join(" " + enc(e[f]) for f in fields.get(e["op"], ())))
            lines.append(".")
        e2 = dict(os.environ)
        e2["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=8192"
        e2["UBSAN_OPTIONS"] = "print_stacktrace=0"
        e2["VD_TMP"] = os.path.join(self.work, "tmp." + tag)
        if env:
            e2.update(env)
        os.makedirs(e2["VD_TMP"], exist_ok=True)
        errf = os.path.join(self.work, tag + ".err")
        outf = os.path.join(self.work, tag + ".out")
        fail = None
        with open(errf, "w") as ef, open(outf, "w") as of:
            p = subprocess.Popen([exe] + list(args), stdin=subprocess.PIPE, stdout=of, stderr=ef, env=e2, text=True, cwd=e2["VD_TMP"], start_new_session=True)
            try:
                p.communicate("\n".join(lines) + "\n", timeout=timeout)
                if p.returncode:
                    fail = "exit status %d" % p.returncode
            except subprocess.TimeoutExpired:
                fail = "timeout after %ds" % timeout
            finally:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
        traces = []
        cur = None
        with open(outf, errors="replace") as f:
            for ln in f:
                ln = ln.strip()
                if not ln:
                    continue
                if ln == "@":
                    cur = []
                elif ln == ".":
                    cfg, ev = scripts[len(traces)]
                    if len(cur) != len(ev):
                        raise CheckError("driver %s: %d results for %d ops" % (exe, len(cur), len(ev)))
                    traces.append((cfg, [merge(a, b, fields) for a, b in zip(ev, cur)]))
                    cur = None
                else:
                    if cur is None:
                        continue
                    try:
                        cur.append(json.loads(ln))
                    except ValueError:
                        break
        if len(traces) < len(scripts) and not fail:
            fail = "driver stopped early"
        if fail:
            if len(traces) >= len(scripts):
                traces = traces[:-1]
            err = open(errf, errors="replace").read()
            fail += "\n" + err[:6000]
        rmtree(e2["VD_TMP"])
        return traces, fail

    def conform(self, model, exe, scripts, fields, cfgfields, consts="", label="", **kw):
        """scripts -> real code -> trace -> specification."""
        traces = self.run_driver(exe, scripts, fields, cfgfields, **kw)
        if self.viol:
            return traces
        bad = self.validate(model, traces, consts)
        for i, pos in bad:
            cfg, ev = traces[i]
            rp = self.save_replay({"kind": "trace-rejected", "model": model, "cfg": cfg, "rejected_event_index": pos,
                                   "rejected_event": ev[pos - 1] if 0 < pos <= len(ev) else None, "trace": ev})
            self.violation("%s: specification %s rejects event %d %s" % (label or "trace", model, pos, json.dumps(ev[pos - 1])[:300] if 0 < pos <= len(ev) else ""), rp,
                           sig="%s:%s" % (model, ev[pos - 1]["op"] if 0 < pos <= len(ev) else "?"))
        if traces and len(self.samples) < 3:
            cfg, ev = traces[min(len(traces) - 1, 7)]
            self.samples.append({"source": label, "cfg": brief(cfg), "trace": brief(ev[:12])})
        self.log("%s: %d traces (%d events) validated, %d rejected" % (label, len(traces), sum(len(t[1]) for t in traces), len(bad)))
        return traces

    # ------------------------------------------------------------ interleavings (vsched)
    def build_vs(self, name, sources, defs=(), flags=()):
        """Harness and code under test with thread instrumentation, linked with the vsched runtime."""
        objs = []
        cmds = []
        for i, s in enumerate(sources + ["vsched.c"]):
            p = os.path.join(REPO, s[1:]) if s.startswith("@") else os.path.join(DRIVERS, s)
            o = os.path.join(self.work, "%s.%d.o" % (name, i))
            cmd = ["gcc", "-std=gnu11", "-g1", "-w"] + DEFS + list(defs) + INCS + list(flags)
            if s == "vsched.c":
                cmd += ["-O2"]
            else:
                cmd += ["-O1", "-fno-builtin-memcpy", "-fno-builtin-memmove", "-fno-builtin-memset", "-fsanitize=thread", "-include", os.path.join(DRIVERS, "vsmem.h")]
            cmds.append(cmd + ["-c", p, "-o", o])
            objs.append(o)
        with ThreadPoolExecutor(NCPU) as ex:
            for cmd, r in zip(cmds, ex.map(lambda c: subprocess.run(c, capture_output=True, text=True), cmds)):
                if r.returncode:
                    raise CheckError("compile failed: %s\n%s" % (" ".join(cmd), r.stderr[-4000:]))
        out = os.path.join(self.work, name)
        r = subprocess.run(["gcc"] + objs + ["-Wl,--wrap=" + w for w in VSWRAP] + ["-o", out], capture_output=True, text=True)
        if r.returncode:
            raise CheckError("link failed:\n%s" % r.stderr[-4000:])
        return out

    def vs_run(self, exe, jobs, cap_hist=400):
        """jobs: [(cfg, mode, bound, max_runs, secs, max_hist, argv)].  Returns histories [(cfg, events)].
        At most cap_hist histories of a job are kept (a seeded sample; defective ones are always kept)."""
        def one(j):
            cfg, mode, bound, mr, secs, mh, argv = j
            a = [exe, str(mode), str(bound), str(mr), str(secs), str(mh), str(self.seed)] + [str(x) for x in argv]
            try:
                p = subprocess.run(a, capture_output=True, text=True, timeout=secs * 3 + 60, errors="replace")
            except subprocess.TimeoutExpired:
                return j, [], None, "timeout"
            hs, st = [], None
            for ln in p.stdout.splitlines():
                if ln.startswith("H["):
                    try:
                        hs.append(json.loads(ln[1:]))
                    except ValueError:
                        pass
                elif ln.startswith("S{"):
                    st = json.loads(ln[1:])
            return j, hs, st, ("" if p.returncode == 0 and st else "exit status %d %s" % (p.returncode, p.stderr[-500:]))
        res = []
        tot = self.extra.setdefault("schedules", {"programs": 0, "executions": 0, "pruned": 0, "distinct_histories": 0, "exhausted_programs": 0, "steps": 0})
        with ThreadPoolExecutor(NCPU) as ex:
            for j, hs, st, err in ex.map(one, jobs):
                if err:
                    j2, hs2, st2, err2 = one(j)
                    if err2:
                        rp = self.save_replay({"kind": "harness-crash", "cfg": j[0], "argv": j[1:], "failure": err2})
                        self.violation("real code crashed or hung under exploration: %s" % err2.strip()[:200], rp, sig="crash " + err2)
                        continue
                    hs, st = hs2, st2
                tot["programs"] += 1
                tot["executions"] += st["runs"]
                tot["pruned"] += st["blocked"]
                tot["distinct_histories"] += st["hist"]
                tot["exhausted_programs"] += st["exhausted"]
                tot["steps"] += st["steps"]
                if len(hs) > cap_hist:
                    bad = [h for h in hs if any(e.get("k") in ("b", "s") for e in h)][:50]
                    hs = bad + self.rng.sample(hs, cap_hist)
                res += [(dict(j[0], argv=" ".join(str(x) for x in j[6])), h) for h in hs]
        return res

    def check_histories(self, model, hists, consts="", label="", template="Hist", annotate=True):
        traces = [(c, annot(h)) for c, h in hists] if annotate else hists
        bad = self.validate(model, traces, consts, template=template)
        for i, pos in bad:
            cfg, ev = traces[i]
            e = ev[pos - 1] if 0 < pos <= len(ev) else {}
            rp = self.save_replay({"kind": "history-rejected", "model": model, "cfg": cfg, "position": pos, "event": e, "history": ev})
            self.violation("%s: specification %s has no behaviour for this history (event %d: %s)" % (label, model, pos, json.dumps(e)[:200]), rp,
                           sig="%s:%s" % (model, e.get("op", e.get("k", "?"))))
        if traces and len(self.samples) < 3:
            self.samples.append({"source": label, "cfg": brief(traces[len(traces) // 2][0]), "history": brief(traces[len(traces) // 2][1][:14])})
        self.log("%s: %d histories (%d events) checked, %d rejected" % (label, len(traces), sum(len(t[1]) for t in traces), len(bad)))

    # ------------------------------------------------------------ reporting
    def save_replay(self, obj):
        obj = dict(obj, property=self.pid, seed=self.seed, tier=self.tier)
        txt = json.dumps(obj, indent=1)
        p = os.path.join(self.outdir, "viol-%s.json" % hashlib.sha1(txt.encode()).hexdigest()[:12])
        with open(p, "w") as f:
            f.write(txt)
        return p

    def violation(self, reason, replay, sig=""):
        for k in self.known:
            if k["match"] and k["match"] in (sig + " " + reason):
                if k["id"] not in self.known_hits:
                    self.known_hits.add(k["id"])
                return
        self.viol.append((reason, replay))

    def finish(self, level):
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["text"]))
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.validated, "trace_events": self.events,
               "samples": self.samples[:3] or ["none"]}
        if level == "exploration":
            cov = {"evaluations": self.events, "distinct_nontrivial": self.validated,
                   "rule": self.extra.pop("rule", ""), **cov}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        with open(os.path.join(V, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        rmtree(self.work)
        if self.viol:
            for r, p in self.viol[:5]:
                print("reason:", r)
                print("VIOLATION property=%s replay=%s" % (self.pid, p))
            return 1
        self.log("held: %d spec states, %d impl traces" % (self.states, self.validated))
        return 0


VSWRAP = ("malloc calloc realloc free posix_memalign aligned_alloc pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock "
          "pthread_mutex_trylock pthread_mutex_unlock pthread_rwlock_init pthread_rwlock_destroy pthread_rwlock_wrlock "
          "pthread_rwlock_rdlock pthread_rwlock_unlock pthread_spin_init pthread_spin_lock pthread_spin_unlock "
          "pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_signal "
          "pthread_cond_broadcast sem_init sem_destroy sem_wait sem_trywait sem_timedwait sem_post sem_getvalue "
          "pthread_create pthread_join pthread_detach pthread_self pthread_exit pthread_once "
          "pthread_setaffinity_np sched_yield usleep nanosleep").split()


def annot(h):
    """Pair invocations with their returns (positions are 1-based, as in TLA+)."""
    open_, out = {}, [dict(e) for e in h]
    for n, e in enumerate(out, 1):
        if e["k"] == "i":
            e["m"] = 0
            open_[e["t"]] = n
        elif e["k"] == "r":
            j = open_.pop(e["t"])
            e["j"] = j
            o = out[j - 1]
            o["m"] = n
            for f in e:
                if f not in ("k", "t", "j"):
                    o[f] = e[f]
    return out


def load_known(pid):
    p = os.path.join(V, "known_findings.jsonl")
    res = []
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("{"):
                k = json.loads(ln)
                if k.get("property") == pid and k.get("status") == "open":
                    res.append(k)
    return res


def sig_of(txt):
    m = re.search(r"(AddressSanitizer: [\w-]+|runtime error: [^\n]*|Assertion `[^\n]*|timeout after)", txt)
    s = m.group(1) if m else "crash"
    m = re.search(r"#\d+ 0x[0-9a-f]+ in (\w+) /repo", txt)
    return s + (" in " + m.group(1) if m else "")


def enc(v):
    if isinstance(v, bool):
        return "1" if v else "0"
    if isinstance(v, list):
        return "%d%s" % (len(v), "".join(" " + enc(x) for x in v))
    return str(v)


def merge(a, b, fields):
    r = {"op": a["op"]}
    for f in fields.get(a["op"], ()):
        r[f] = a[f]
    r.update(b)
    return r


def drop_prefixes(scripts):
    keyed = sorted(((json.dumps(c, sort_keys=True), [json.dumps(e, sort_keys=True) for e in ev], k) for k, (c, ev) in enumerate(scripts)), key=lambda x: (x[0], x[1]))
    keep = []
    for a, b in zip(keyed, keyed[1:] + [None]):
        if b and a[0] == b[0] and b[1][:len(a[1])] == a[1]:
            continue
        keep.append(scripts[a[2]])
    return keep


def tlc_counts(txt):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", txt)
    if m:
        return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))
    return 0, 0


def tail(path, n):
    with open(path, "rb") as f:
        f.seek(0, 2)
        sz = f.tell()
        f.seek(max(0, sz - n))
        return f.read().decode(errors="replace")


def main(argv):
    import importlib
    pid, tier = argv[0], (argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick"))
    mod = importlib.import_module("mods." + pid)
    for attempt in (1, 2):
        ctx = Ctx(pid, tier)
        try:
            mod.check(ctx)
            return ctx.finish(getattr(mod, "LEVEL", "model_checking"))
        except CheckError as e:
            print("check error (attempt %d): %s" % (attempt, e), flush=True)
            rmtree(ctx.work)
    return 2
