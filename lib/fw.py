"""Check framework: builds /repo's current sources in several instrumented variants, runs workloads in parallel,
collects verdicts, routes them through known_findings.json and writes the evidence file.

Verdicts: violation (exit 1 + VIOLATION line), held on everything explored (exit 0; runs cut off by the wall clock are
listed in the evidence), nothing could be observed (harness error, exit 2).
"""
import atexit, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time, traceback
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src", "Meshing")
NCPU = min(8, os.cpu_count() or 1)


class HarnessError(Exception):
    pass


# ---------------------------------------------------------------------------------------------------------- building
VARIANTS = {
    # name: (compiler, flags, use the shim instead of libgomp, link flags)
    "plain": ("g++", "-O2 -g0", False, ""),
    "fixed": ("g++", "-O2 -g0 -DFIXED_RNG_SEED", False, ""),
    "asan": ("g++", "-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=undefined", False, ""),
    # the same with the interposed OpenMP run time (threads without real parallelism) and checked casts and containers
    "asani": ("g++", "-O1 -g -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS -fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=undefined,float-cast-overflow", True, ""),
    "tsan": ("g++", "-O1 -g -fsanitize=thread", True, ""),
    "inline": ("g++", "-O2 -g0", True, ""),
    "shim": ("g++", "-O2 -g0 -DFIXED_RNG_SEED", True, ""),
    "debug": ("g++", "-O1 -g", False, ""),
    "msanlike": ("g++", "-O1 -g -DFIXED_RNG_SEED", False, ""),
}


class Builder:
    def __init__(self, root):
        self.root = root
        self.gen = os.path.join(root, "gen")
        os.makedirs(self.gen, exist_ok=True)
        with open(os.path.join(self.gen, "Config.h"), "w") as f:
            f.write("#ifndef VOROCRUST_CONFIG_H\n#define VOROCRUST_CONFIG_H\n#define NO_KOKKOS\n#define NO_KOKKOSKERNELS\n"
                    "#ifndef USE_EXODUS\n#define NO_EXODUS\n#endif\n#define USE_MPI\n#define USE_OPEN_MP\n#define NO_LAPACK\n#endif\n")
        # Version.h: every @X@ of the template becomes a fixed text
        tpl = None
        for d in (SRC, os.path.join(REPO, "src"), os.path.join(REPO, "cmake"), REPO):
            for b, _, fs in os.walk(d):
                if "_build" in b.split(os.sep): continue
                if "Version.h.in" in fs: tpl = os.path.join(b, "Version.h.in"); break
            if tpl: break
        if tpl:
            t = open(tpl).read()
            t = re.sub(r"#cmakedefine01?\s+(\w+).*", r"/* \1 */", t)
            t = re.sub(r"[@$]\{?\w+\}?@?", lambda m: "0" if m.group(0).startswith("@") or m.group(0).startswith("${") else m.group(0), t)
            open(os.path.join(self.gen, "Version.h"), "w").write(t)
        self.objs = {}

    def _sources(self):
        return sorted(os.path.join(SRC, f) for f in os.listdir(SRC) if f.endswith(".cpp"))

    def objects(self, variant, extra=""):
        key = (variant, extra)
        if key in self.objs: return self.objs[key]
        cxx, flags, shim, _ = VARIANTS[variant]
        d = os.path.join(self.root, "obj_%s_%s" % (variant, hashlib.md5(extra.encode()).hexdigest()[:6]))
        os.makedirs(d, exist_ok=True)
        base = [cxx, "-std=c++14", "-w", "-fopenmp", "-I" + self.gen, "-I" + SRC] + flags.split() + extra.split()
        jobs = [(base + ["-c", s, "-o", os.path.join(d, os.path.basename(s) + ".o")]) for s in self._sources()]
        objs = [j[-1] for j in jobs]
        if shim:
            o = os.path.join(d, "gomp_shim.o")
            jobs.append([cxx, "-std=c++14", "-w"] + flags.split() + ["-c", os.path.join(VERIF, "src", "gomp_shim.cpp"), "-o", o])
            objs.append(o)
        self._run(sorted(jobs, key=lambda j: -os.path.getsize(j[j.index("-c") + 1])))
        self.objs[key] = objs
        return objs

    def _run(self, jobs):
        with ThreadPoolExecutor(NCPU) as ex:
            for r, j in zip(ex.map(lambda j: subprocess.run(j, capture_output=True, text=True), jobs), jobs):
                if r.returncode: raise HarnessError("build failed: %s\n%s" % (" ".join(j), r.stderr[-3000:]))

    def exe(self, variant, main="vc_mesh.cxx", name=None, extra="", access=False, libs=""):
        """Link `main` (a path, or a file of /repo/src/Meshing) with the objects of a variant."""
        cxx, flags, shim, lf = VARIANTS[variant]
        objs = self.objects(variant, extra)
        path = main if os.path.isabs(main) else os.path.join(SRC, main)
        name = name or os.path.basename(main).split(".")[0]
        out = os.path.join(self.root, "%s_%s%s" % (name, variant, "_" + hashlib.md5(extra.encode()).hexdigest()[:6] if extra else ""))
        if os.path.exists(out): return out
        o = out + ".main.o"
        base = [cxx, "-std=c++14", "-w", "-I" + self.gen, "-I" + SRC, "-I" + os.path.join(VERIF, "src")] + flags.split() + extra.split()
        jobs = [base + ["-fopenmp", "-c", path, "-o", o]]
        h = out + ".hook.o"
        jobs.append(base + ["-c", os.path.join(VERIF, "src", "seedhook.cpp"), "-o", h])
        self._run(jobs)
        link = lambda ob, omp: [cxx] + flags.split() + [o, h] + ob + omp + ["-lpthread"] + lf.split() + libs.split() + ["-o", out]
        try: self._run([link(objs, [] if shim else ["-fopenmp"])])
        except HarnessError as ex:
            # an OpenMP construct that the shim does not offer: use the real run time, whose order of threads cannot be
            # chosen (except for the race detector, which would not see its synchronisation)
            if not shim or "thread" in flags or "GOMP_" not in str(ex): raise
            self._run([link([x for x in objs if not x.endswith("gomp_shim.o")], ["-fopenmp"])])
        return out


# ----------------------------------------------------------------------------------------------------------- running
class Result:
    __slots__ = ("rc", "out", "err", "wall", "cpu", "timeout", "dir")

    def crashed(self):
        return not self.timeout and self.rc != 0


_NOT_INLINE = set()


def run(cmd, cwd=None, env=None, **kw):
    """As _run; code whose parallel regions wait for each other (a barrier, a nested work sharing loop) cannot be run
    one thread after the other (the shim then ends with status 77): such programs are run with real threads, one at a
    time at every instant ('seq')."""
    sched = (env or {}).get("VC_SCHED", "")
    if sched.startswith("inline"):
        if cmd[0] not in _NOT_INLINE:
            r = _run(cmd, cwd, env, **kw)
            if r.timeout or r.rc != 77: return r
            _NOT_INLINE.add(cmd[0])
        env = dict(env, VC_SCHED="seq" + sched[6:])
    return _run(cmd, cwd, env, **kw)


def _wait(p, wall):
    """wait for the end of a program; one that uses no CPU time at all for STUCK seconds waits for itself"""
    end = time.time() + wall; mark = (time.time(), -1.0)
    while True:
        try: return p.wait(timeout=max(0.01, min(5, end - time.time())))
        except subprocess.TimeoutExpired:
            now = time.time()
            if now >= end: raise
            try: t = open("/proc/%d/stat" % p.pid).read().rsplit(")", 1)[1].split(); used = (int(t[11]) + int(t[12])) / os.sysconf("SC_CLK_TCK")
            except (OSError, IndexError): continue
            if used > mark[1] + .05: mark = (now, used)
            elif now - mark[0] > STUCK: raise subprocess.TimeoutExpired("stuck", now)


STUCK = 120


def _run(cmd, cwd=None, env=None, cpu=300, wall=600, stdin=subprocess.DEVNULL, keep=200000, mem_gb=None):
    """Run one program; a CPU-time limit decides 'does not terminate', the wall clock limit is only a safety net."""
    e = dict(os.environ); e.pop("LD_PRELOAD", None); e.update(env or {})
    r = Result(); r.dir = cwd

    def lim():
        resource.setrlimit(resource.RLIMIT_CPU, (int(cpu), int(cpu) + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (2 << 30, 2 << 30))
        if mem_gb: resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * (1 << 30)),) * 2)
        os.setpgid(0, 0)
    t = time.time()
    with tempfile.TemporaryFile() as fo, tempfile.TemporaryFile() as fe:
        try:
            p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=stdin if not isinstance(stdin, bytes) else subprocess.PIPE,
                                 stdout=fo, stderr=fe, preexec_fn=lim)
        except OSError as ex:
            raise HarnessError("cannot run %s: %s" % (cmd[0], ex))
        r.timeout = False
        try:
            if isinstance(stdin, bytes):
                try:
                    p.stdin.write(stdin); p.stdin.close()
                except BrokenPipeError: pass
            _wait(p, wall)
        except subprocess.TimeoutExpired as ex:
            r.timeout = True; stuck = str(ex.cmd) == "stuck"
            try: os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError: pass
            p.wait()
        r.rc = p.returncode
        if r.timeout and stuck: r.rc = -int(signal.SIGXCPU)   # all threads wait for ever: judged like endless computing
        if r.rc in (-signal.SIGXCPU,): r.timeout = True
        for f, k in ((fo, "out"), (fe, "err")):
            n = f.seek(0, 2); f.seek(max(0, n - keep)); setattr(r, k, f.read().decode("utf-8", "replace"))
    r.wall = time.time() - t
    return r


class Stop(Exception):
    pass


class Check:
    def __init__(self, prop, level="exploration"):
        self.prop, self.level = prop, level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = "thorough" if "thorough" in sys.argv[1:] else os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"): self.tier = "quick"
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix="vc_%s_" % prop, dir=os.environ.get("VERIF_TMP", "/tmp"))
        atexit.register(lambda: shutil.rmtree(self.work, ignore_errors=True))
        signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))
        self.b = Builder(self.work)
        self.lock = threading.Lock()
        self.viol, self.known, self.inconclusive = [], [], []
        self.evals, self.nontriv, self.samples, self.cov = 0, set(), [], {}
        self.stop = threading.Event()
        self.assumptions = []
        self.rule = ""
        self.replay_dir = os.path.join(VERIF, "evidence", "replay", prop)
        kf = os.path.join(VERIF, "known_findings.json")
        self.findings = [f for f in json.load(open(kf))["findings"] if f["property"] == prop and f["status"] == "finding"] if os.path.exists(kf) else []

    # ---- recording
    def note(self, key, n=1):
        with self.lock: self.cov[key] = self.cov.get(key, 0) + n

    def maxi(self, key, v):
        with self.lock: self.cov[key] = max(self.cov.get(key, v), v)

    def mini(self, key, v):
        with self.lock: self.cov[key] = min(self.cov.get(key, v), v)

    def case(self, ident, sample=None, n=1):
        """One evaluated, non-trivial case identified by `ident`."""
        with self.lock:
            self.evals += n; self.nontriv.add(str(ident))
            if sample is not None and len(self.samples) < 8: self.samples.append(sample)

    def violation(self, key, msg, src_dir=None, replay=None, files=None):
        """key identifies the failing input/call site; matched against the findings committed in known_findings.json."""
        with self.lock:
            for f in self.findings:
                if re.fullmatch(f["key"], key):
                    if key not in self.known:
                        self.known.append(key)
                        print("KNOWN-FINDING: property=%s %s" % (self.prop, f["what"]), flush=True)
                    return
            n = len(self.viol)
            d = os.path.join(self.replay_dir, "%03d" % n)
            path = d
            if n < 5:
                shutil.rmtree(d, ignore_errors=True); os.makedirs(d, exist_ok=True)
                if src_dir and os.path.isdir(src_dir):
                    for f in os.listdir(src_dir):
                        p = os.path.join(src_dir, f)
                        if os.path.isfile(p) and os.path.getsize(p) < 5 << 20: shutil.copy(p, d)
                for nm, txt in (files or {}).items(): open(os.path.join(d, nm), "w").write(txt)
                with open(os.path.join(d, "VIOLATION.txt"), "w") as f:
                    f.write("property %s\nkey %s\nseed %d tier %s\n%s\n\nreplay: %s\n" % (self.prop, key, self.seed, self.tier, msg, replay or
                            "VERIF_SEED=%d VERIF_TIER=%s python3-vt %s" % (self.seed, self.tier, " ".join(sys.argv))))
            self.viol.append((key, msg))
            if n < 5:
                print("  %s: %s" % (key, msg.strip()[:1500]), flush=True)
                print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
        self.stop.set()

    def uninterpretable(self, e):
        """results that an oracle cannot even read (numbers missing, indices that point nowhere, files that were not written)"""
        if not (isinstance(e, (ValueError, ArithmeticError, LookupError, TypeError)) or isinstance(e, FileNotFoundError) and str(getattr(e, "filename", "")).startswith(self.work)): return False
        if self.viol: return True      # said already that the results are wrong
        t = traceback.format_exc(); at = [l.strip() for l in t.split("\n") if l.strip().startswith("File ") and "/fw.py" not in l and "/checks/" in l or "/lib/oracle" in l]
        self.violation("uninterpretable", "the results cannot be interpreted: %s: %s\n%s" % (type(e).__name__, e, "\n".join(at[-4:])))
        return True

    # ---- scheduling
    def parallel(self, fn, items, workers=NCPU, stop_on_violation=True):
        items = list(items)
        res = [None] * len(items)
        def go(i):
            if stop_on_violation and self.stop.is_set(): return None
            try: res[i] = fn(items[i])
            except Stop: pass
            except Exception as e:
                if not self.uninterpretable(e): raise
        with ThreadPoolExecutor(workers) as ex:
            for f in as_completed([ex.submit(go, i) for i in range(len(items))]): f.result()
        return res

    # ---- finish
    def finish(self):
        wall = time.time() - self.t0
        cov = {"evaluations": self.evals, "distinct_nontrivial": len(self.nontriv), "rule": self.rule,
               "samples": self.samples or ["none"]}
        cov.update({k: (round(v, 12) if isinstance(v, float) else v) for k, v in sorted(self.cov.items())})
        if self.known: cov["known_findings_seen"] = sorted(self.known)
        if self.inconclusive: cov["inconclusive"] = self.inconclusive[:20]
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(wall, 2), "violations": len(self.viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", self.prop + ".json.tmp")
        json.dump(ev, open(tmp, "w"), indent=1, default=float)
        os.replace(tmp, os.path.join(VERIF, "evidence", self.prop + ".json"))
        for f in self.findings:
            if f.get("always") and not self.known: pass
        if self.viol:
            print("%s: %d violation(s), %d evaluations, %.1f s" % (self.prop, len(self.viol), self.evals, wall)); return 1
        if self.evals == 0 or not self.nontriv:
            print("%s: observed nothing %s" % (self.prop, "; ".join(map(str, self.inconclusive[:5])))); return 2
        if self.inconclusive: print("%s: not decided within the wall clock limits: %s" % (self.prop, "; ".join(map(str, self.inconclusive[:5]))))
        print("%s: held on %d evaluations (%d distinct), %.1f s" % (self.prop, self.evals, len(self.nontriv), wall))
        return 0


def main(prop, body, level="exploration"):
    c = Check(prop, level)
    try:
        body(c)
        rc = c.finish()
    except HarnessError as e:
        print("%s: harness error: %s" % (prop, e)); rc = 1 if c.viol else 2
    except SystemExit: raise
    except Exception as e:
        if isinstance(e, (ValueError, ArithmeticError, LookupError, TypeError)) and c.evals and c.uninterpretable(e): rc = c.finish()
        else: traceback.print_exc(); rc = 1 if c.viol else 2
    except BaseException:
        traceback.print_exc(); rc = 1 if c.viol else 2
    sys.stdout.flush()
    shutil.rmtree(c.work, ignore_errors=True)
    os._exit(rc)
