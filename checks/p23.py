"""P23: what a run reports is what it wrote"""
import copy, os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np
import fw, meshgen, oracle, pipe

NUM = r"([-+0-9.eE]+|inf|nan)"


class Log:
    """last (or all) values printed behind a label; wording that is not found is counted, not judged"""
    def __init__(self, chk, text): self.chk, self.t = chk, text
    def all(self, pat):
        r = [tuple(float(x) for x in (m if isinstance(m, tuple) else (m,))) for m in re.findall(pat.replace("#", NUM), self.t)]
        self.chk.note("log_items", len(r))
        if not r: self.chk.note("log_items_not_found"); self.chk.note("not_found: " + pat[:40])
        return r
    def last(self, pat):
        r = self.all(pat)
        return r[-1] if r else None


def same(a, b): return abs(a - b) <= 2e-5 * max(abs(a), abs(b)) + 1e-300   # six digits are printed


def o_report(chk, R, m, cfg):
    """every figure of the log against the files"""
    t = R.result.out; g = Log(chk, t); n = 0
    def eq(what, pat, *want):
        nonlocal n
        v = g.last(pat)
        if v is None: return
        n += 1
        for a, b in zip(v, want):
            if not same(a, b): yield "report-" + what, "the log says %s = %s, the files say %s" % (what, v, want); return
    L = open(R.path("VoroCrustLog.txt"), errors="replace").read() if os.path.exists(R.path("VoroCrustLog.txt")) else None
    if L is None: yield "no-log", "no VoroCrustLog.txt was written"
    elif L != t:
        k = next((i for i, (a, b) in enumerate(zip(L, t)) if a != b), min(len(L), len(t)))
        yield "log-differs", "VoroCrustLog.txt differs from the standard output at byte %d: %r / %r" % (k, L[k:k + 60], t[k:k + 60])
    # the settings in force
    for what, key, pat in (("threads", "NUM_THREADS", "Number of OpenMP threads = #"), ("lipschitz constant", "LIP_CONST", "Lipschitz Const = #"),
                           ("angle", "VC_ANGLE", "Smooth Angle Threshold = #"), ("maximum radius", "R_MAX", "Maximum Sphere Radius = #")):
        if key in cfg: yield from eq(what, pat, float(cfg[key]))
    v = g.last("VoroCrust is using # / # available")
    if v is not None and (v[0] != float(cfg["NUM_THREADS"]) or v[1] < v[0]): yield "report-team", "%s threads are said to be used of %s, %s were requested" % (v[0], v[1], cfg["NUM_THREADS"])
    # the input
    files = R.case.split and [(len(a), len(b)) for a, b in R.m.shells] or [(len(R.m.V), len(R.m.F))]
    for what, pat, k in (("input points", "Number of Input mesh points = #", 0), ("input faces", "Number of Input mesh faces = #", 1)):
        v = [x[0] for x in g.all(pat)]
        if v and v != [float(f[k]) for f in files]: yield "report-" + what, "the log says %s per file = %s, the files hold %s" % (what, v, [f[k] for f in files])
        n += len(v)
    f = R.feat
    yield from eq("sharp corners", "Number of Sharp Corners = #", len(f.corners))
    # edges without exactly two faces stand in the list once per face
    v = g.last("Number of Sharp Edges = #"); many = len(f.edges) + f.extra
    if v is not None and v[0] not in (len(f.edges), many): yield "report-sharp edges", "the log says %g sharp edges, the model has %d (%d counted per face)" % (v[0], len(f.edges), many)
    # spheres
    for nm, X in (("Corner", R.corner), ("Edge", R.edge), ("Surface", R.surf)):
        if len(X):
            yield from eq("smallest %s sphere" % nm, "Minimum %s Sphere Radius = #" % nm, X[:, 3].min()); yield from eq("largest %s sphere" % nm, "Maximum %s Sphere Radius = #" % nm, X[:, 3].max())
    yield from eq("spheres", r"Number of Spheres = \(#, #, #\)", len(R.corner), len(R.edge), len(R.surf))
    # seeds
    s = R.seeds
    v = [x[0] for x in g.all(r"Number of seeds *=? *#")]
    if v and v[-1] != len(s): yield "report-seeds", "the log says %g seeds, seeds.csv has %d" % (v[-1], len(s))
    n += bool(v)
    v = [x[0] for x in g.all(r"Number of added seeds #")]
    if len(v) == 2 and v[-1] != len(s) - 2 * R.nf: yield "report-added", "the log says %g seeds were added, %d of the %d seeds are not surface seeds" % (v[-1], len(s) - 2 * R.nf, len(s))
    yield from eq("subregions", "Number of subregions is #", len(set(s[:2 * R.nf, 4].astype(int).tolist()) - {0}))
    # the mesh
    if os.path.exists(R.path("mesh.vcg")):
        C, K, _ = R.vcg
        yield from eq("regions", "Number of volumetric regions *= *#", len(set(C[:, 5].astype(int).tolist())))
        yield from eq("meshed cells", "Number of meshed cells *= *#", len(C))
        if len(C):
            vol = C[:, 4]
            yield from eq("total volume", "Total Volume = #", vol.sum()); yield from eq("smallest cell", "Minimum cell volume = #", vol.min())
            yield from eq("largest cell", "Maximum cell volume = #", vol.max()); yield from eq("average cell", "Average cell volume = #", vol.mean())
            # every facet of a cell is a connection; one on the boundary names its cell twice
            deg = np.zeros(len(C) + 1, int)
            if len(K): a, b = K[:, 0].astype(int), K[:, 1].astype(int); np.add.at(deg, a, 1); np.add.at(deg, b[a != b], 1)
            deg = deg[1:]
            yield from eq("connections", "Total Number of connections = #", deg.sum()); yield from eq("fewest connections", "Minimum cell connections = #", deg.min())
            yield from eq("most connections", "Maximum cell connections = #", deg.max())
            v = g.last("Average cell connections = #")
            if v is not None and not deg.mean() - 1 - 1e-9 <= v[0] <= deg.mean() + 1e-4 * deg.mean(): yield "report-average connections", "the log says %g connections per cell on average, mesh.vcg has %g" % (v[0], deg.mean())
            m["volume_cells"] = len(C)
    elif "GENERATE_VCG_FILE" in cfg: yield "no-vcg", "no mesh.vcg was written"
    # files exist exactly when they were asked for
    for fn, want in (("mesh.vcg", "GENERATE_VCG_FILE" in cfg), ("monitoring_points.csv", "GENERATE_MONITORING_POINTS" in cfg), ("model_combined.obj", R.case.split),
                     ("monitoring_points_closest_seeds.csv", False), ("mesh.exo", False)):
        if os.path.exists(R.path(fn)) != want: yield "file-" + fn, "%s was %swritten although it was %srequested" % (fn, "" if not want else "not ", "" if want else "not ")
    if "GENERATE_MONITORING_POINTS" in cfg and os.path.exists(R.path("monitoring_points.csv")):
        yield from eq("monitoring points", "Number of Monitoring Points = #", len(oracle.read_csv(R.path("monitoring_points.csv"))))
    if "GENERATE_EXODUS_FILE" in cfg and not re.search("(?i)warning.*exodus", t): yield "exodus-silent", "the Exodus file is neither written nor said to be unavailable"
    if not re.search("Mission Accomplished", t.rstrip().split("\n")[-1]): yield "unfinished", "the run ended with status 0 without saying that it is done: %r" % t[-200:]
    m["figures_compared"] = n


RESULT = ("seeds.csv", "surface_mesh.obj", "corner_spheres.csv", "edges_spheres.csv", "surface_spheres.csv", "mesh.vcg", "monitoring_points.csv", "clean.obj")


def body(chk):
    chk.rule = "case = one run of vc_mesh whose report was compared with its result files, or one control file judged by its effect; distinct by model, configuration and control-file layout"
    exe = chk.b.exe("inline"); rng = np.random.default_rng([chk.seed, 2323])
    cs = meshgen.cases("P23", chk.seed, 80 if chk.thorough else 12, must=({"model": "nested", "split": True}, {"model": "stack2", "split": False}, {"model": "hullr", "sizing": "point"}, {"model": "sphere"}, {"model": "cyl"}, {"model": "lshape"}), dear=.2)
    for i, c in enumerate(cs):
        c.cfg = dict(c.cfg)
        if i % 3 == 0: c.cfg["GENERATE_MONITORING_POINTS"] = ""
        if i % 5 == 4: c.cfg.pop("GENERATE_VCG_FILE", None)
        if i % 4 == 1: c.cfg["GENERATE_EXODUS_FILE"] = ""

    def report(c):
        R = pipe.run_case(chk, exe, c)
        if R is None: return
        m = {}
        pipe.judge(chk, R, o_report(chk, R, m, c.cfg), m)
        chk.case(c.ident(), {"case": c.ident(), "figures": m.get("figures_compared")})
        pipe.drop(R)

    # control files: one meaning, several layouts
    lay = []
    for i in range(24 if chk.thorough else 4):
        c = meshgen.draw(np.random.default_rng([chk.seed, i, 99]), str(rng.choice(["tetra", "box", "octa", "wedge", "stack2"])))
        c.cfg = dict(c.cfg); c.sizing = pipe.sizing_for(c.model(), np.random.default_rng([chk.seed, i, 98]), "point") if i % 2 else None
        if i % 2 == 0: c.cfg["GENERATE_MONITORING_POINTS"] = ""
        lay.append((c, int(rng.integers(1 << 30))))

    def layout(a):
        c, sd = a; r = np.random.default_rng(sd)
        A = pipe.run_case(chk, exe, c)
        if A is None: return
        L = [l for l in open(A.path("vc.in")).read().split("\n") if l.strip()]
        mesh = [l for l in L if l.startswith("INPUT_MESH_FILE")]; rest = [l for l in L if not l.startswith("INPUT_MESH_FILE")]
        def shuffled():
            x = [rest[k] for k in r.permutation(len(rest))]
            at = int(r.integers(len(x) + 1)); return x[:at] + mesh + x[at:]
        def doubled():
            d = {"LIP_CONST": "0.11", "VC_ANGLE": "77", "NUM_THREADS": "6", "R_MAX": "1e-3"}
            return ["%s = %s" % kv for kv in d.items()] + mesh + rest
        def spaced(): return ["", "   ", "# a comment", "UNKNOWN_KEY = 5"] + ["  \t" + "\t ".join(l.split()) + "  \r" for l in shuffled()] + [""]
        for nm, lines in (("shuffled", shuffled()), ("doubled", doubled()), ("spaced", spaced())):
            def prep(d, m, lines=lines):
                with open(os.path.join(d, "vc.in"), "w", newline="") as f: f.write("\n".join(lines) + ("\n" if nm != "shuffled" else ""))
            b = copy.copy(c); b.tag = nm
            B = pipe.run_case(chk, exe, b, prep=prep)
            if B is None: continue
            for fn in RESULT:
                x, y = (open(R.path(fn), "rb").read() if os.path.exists(R.path(fn)) else None for R in (A, B))
                if x != y: chk.violation("layout-%s:%s" % (nm, c.name), "%s changes with the layout of the control file (%s)\ncase %s" % (fn, nm, c.ident()), B.d); break
            chk.case("layout/" + b.ident()); chk.note("layouts_compared"); pipe.drop(B)
        pipe.drop(A)

    # the command line
    def cli(a):
        args, ok, what = a; d = os.path.join(chk.work, "cli_" + what.replace(" ", "_")); os.makedirs(d, exist_ok=True)
        r = fw.run([exe] + args, cwd=d, cpu=30, wall=120)
        if r.timeout: chk.violation("cli-hang:" + what, "vc_mesh %s does not end" % " ".join(args), d)
        elif (r.rc == 0) != ok: chk.violation("cli-status:" + what, "vc_mesh %s ends with status %s" % (" ".join(args), r.rc), d)
        elif ok and not re.search("(?i)usage", r.out): chk.violation("cli-usage:" + what, "vc_mesh %s shows no usage" % " ".join(args), d)
        left = [f for f in os.listdir(d) if f not in ("VoroCrustLog.txt",) and not f.startswith(".")]
        if left: chk.violation("cli-files:" + what, "vc_mesh %s wrote %s" % (" ".join(args), left), d)
        chk.case("cli/" + what); chk.note("command_lines")
    jobs = [(report, c) for c in sorted(cs, key=lambda c: c.name not in meshgen.DEAR)] + [(layout, a) for a in lay] + [(cli, a) for a in (
        (["-h"], True, "help"), (["-vc", "missing.in"], False, "missing control file"), (["-vc"], False, "no control file"), (["-nosuch", "x"], False, "unknown method"))]
    chk.parallel(lambda j: j[0](j[1]), jobs)
    if chk.cov.get("log_items", 0) < 10 * chk.cov.get("log_items_not_found", 0): raise fw.HarnessError("too little of the log is understood")


if __name__ == "__main__": fw.main("P23", body)
