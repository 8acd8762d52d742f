"""P01: no memory error, no undefined behaviour, no dependence on the contents of fresh memory"""
import hashlib, os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
import fw, harness, meshgen, oracle, pipe
import p04, p12

ENV = dict(harness.SAN); ENV["ASAN_OPTIONS"] += ":detect_stack_use_after_return=1:malloc_fill_byte=173:max_malloc_fill_size=1073741824:free_fill_byte=90:max_free_fill_size=4096"


def head(err):
    l = [x for x in err.split("\n") if "ERROR: AddressSanitizer" in x or "runtime error" in x or "Assertion" in x or "==ERROR" in x]
    fn = re.findall(r"#\d+ 0x\w+ in ([\w:~]+)", err); fn = [f for f in fn if "Meshing" in f or "VoroSpokes" in f]
    m = re.search(r"AddressSanitizer: ([\w-]+)", err); kind = m.group(1) if m else "undefined" if "runtime error" in err else "crash"
    return "%s:%s" % (kind, fn[0] if fn else "?"), "\n".join(l[:3]) + "\n" + err[-2500:]


def mesher(chk, exe, c, pts, sched):
    d = os.path.join(chk.work, "a_" + pipe._hash(c.ident())); shutil.rmtree(d, ignore_errors=True); c.prepare(d)
    if pts: open(os.path.join(d, "monitoring_points.csv"), "w").write(pts)
    r = pipe.mesh(exe, d, c, dict(ENV, VC_SCHED=sched), cpu=1200, wall=700)
    if r.timeout:
        if r.rc == -24: chk.violation("hang:" + c.name, "run of %s does not end" % c.ident(), d)
        else:
            with chk.lock: chk.inconclusive.append("no end within the limits: " + c.ident())
        return
    if r.rc != 0: k, t = head(r.err); chk.violation(k, "%s\nstatus %s, case %s, %s" % (t, r.rc, c.ident(), sched), d); return
    for f in ("seeds.csv", "surface_mesh.obj", "surface_spheres.csv") + (("mesh.vcg",) if "GENERATE_VCG_FILE" in c.cfg else ()):
        if not os.path.exists(os.path.join(d, f)): chk.violation("no-output:" + c.name, "run of %s ended with status 0 but wrote no %s" % (c.ident(), f), d); return
    chk.note("sanitized_runs"); chk.maxi("sanitized_wall_max_s", round(r.wall, 1))
    chk.case("asan/" + c.ident(), {"sanitized run": c.ident(), "wall_s": round(r.wall, 1)}); shutil.rmtree(d, ignore_errors=True)


def cells(chk, exe, job):
    kind, n, seed = job; rng = np.random.default_rng([seed, 1])
    if kind == "shells":   # seeds inside shells of many others: cells with hundreds of facets
        X = [np.zeros((0, 3))]; R = []
        for c in ((0, 0, 0), (5, .3, .2), (0, 6, 1)):
            k = int(n * rng.uniform(.5, 1)); i = np.arange(k); z = 1 - (2 * i + 1) / k; a = 2.39996322972865332 * i + rng.uniform(0, 6); r = np.sqrt(1 - z * z); q = 1 + .002 * rng.uniform(-1, 1, k) / np.sqrt(k)
            P = np.c_[r * np.cos(a), r * np.sin(a), z] * q[:, None] + c; X += [P, np.array([c]) + rng.normal(size=(1, 3)) * .01]; R += [1] * k + [2]
        X = np.vstack(X); G = rng.normal(size=(200, 3)); G = G / np.linalg.norm(G, axis=1)[:, None] * 14 + X.mean(0); X = np.vstack([X, G]); R = np.array(R + [0] * 200); p = rng.permutation(len(X)); X, R = X[p], R[p]
    else: X, R = p12.seeds_set(kind, n, rng)
    from scipy.spatial import cKDTree
    d = os.path.join(chk.work, "c_%s_%d_%d" % job); p12.write(d, X, cKDTree(X).query(X, 2)[0][:, 1] * 10 ** rng.uniform(-1, 1, len(X)), R, int(rng.integers(1, 9)))
    r = fw.run([exe, "-vc", "vc.in"], cwd=d, env=dict(ENV, VC_SCHED="inline:%d" % seed), cpu=600)
    if r.timeout:
        with chk.lock: chk.inconclusive.append("seeds %s/%d/%d" % job)
        return
    if r.rc != 0: k, t = head(r.err); chk.violation(k, "%s\nstatus %s, meshing the seeds of %s/%d/%d" % ((t, r.rc) + job), d); return
    if not os.path.exists(os.path.join(d, "mesh.vcg")): chk.violation("no-output:seeds", "no mesh.vcg for the seeds of %s/%d/%d" % job, d); return
    try:
        vcg = oracle.read_vcg(os.path.join(d, "mesh.vcg")); C = vcg[1]; chk.note("cells_built_sanitized", len(vcg[0])); n = np.bincount(np.r_[C[:, 0], C[:, 1]].astype(int)) if len(C) else [0]; chk.maxi("facets_of_one_cell_max", int(max(n)))
    except Exception: chk.note("meshes_not_interpreted")
    chk.case("cells/%s/%d/%d" % job); shutil.rmtree(d, ignore_errors=True)


def opened(chk, exe, seed):
    """a surface that encloses nothing: a triangle, a bent sheet or a box without its lid"""
    rng = np.random.default_rng([seed, 77]); kind = ("box", "sheet", "triangle")[seed % 3]; z = lambda: rng.uniform(-.3, .3)
    if kind == "triangle": V = rng.uniform(0, 1, (1, 3)) + np.array([[0, 0, 0], [1, z(), z()], [.4, 1, z()]]); F = [(0, 1, 2)]
    elif kind == "sheet": V = np.array([(i, j, .4 * z()) for i in (0, .5, 1) for j in (0, .5, 1)]); F = [t for i in (0, 1) for j in (0, 1) for t in ((3 * i + j, 3 * i + j + 3, 3 * i + j + 4), (3 * i + j, 3 * i + j + 4, 3 * i + j + 1))]
    else: V = np.array([(i, j, k) for k in (0, 1) for j in (0, 1) for i in (0, 1)]) * rng.uniform(.7, 1.2, 3); F = [(0, 2, 1), (1, 2, 3), (0, 1, 4), (1, 5, 4), (1, 3, 5), (3, 7, 5), (3, 2, 7), (2, 6, 7), (2, 0, 6), (0, 4, 6)]
    d = os.path.join(chk.work, "o_%s_%d" % (kind, seed)); os.makedirs(d); nt = int(rng.integers(1, 8))
    open(os.path.join(d, "in.obj"), "w").write("".join("v %.17g %.17g %.17g\n" % tuple(v) for v in V) + "".join("f %d %d %d\n" % tuple(i + 1 for i in f) for f in F))
    open(os.path.join(d, "vc.in"), "w").write("INPUT_MESH_FILE = in.obj\nR_MAX = 1000\nLIP_CONST = 0.25\nVC_ANGLE = 30\nNUM_THREADS = %d\nGENERATE_VCG_FILE\n%s" % (nt, "GENERATE_MONITORING_POINTS\n" if seed % 2 else ""))
    r = fw.run([exe, "-vc", "vc.in"], cwd=d, env=dict(ENV, VC_SCHED="inline:%d" % seed), cpu=600)
    if r.timeout:
        with chk.lock: chk.inconclusive.append("open surface %s/%d" % (kind, seed))
        return
    if r.rc != 0: k, t = head(r.err); chk.violation(k, "%s\nstatus %s, open surface %s/%d" % (t, r.rc, kind, seed), d); return
    chk.note("open_surfaces"); chk.case("open/%s/%d" % (kind, seed)); shutil.rmtree(d, ignore_errors=True)


def fill(chk, exe, c, pts, k):
    """the same run with three different contents of fresh and freed memory"""
    ref = None; d = os.path.join(chk.work, "f_" + pipe._hash(c.ident()))
    for v in k:
        shutil.rmtree(d, ignore_errors=True); c.prepare(d)
        if pts: open(os.path.join(d, "monitoring_points.csv"), "w").write(pts)
        r = pipe.mesh(exe, d, c, {"MALLOC_PERTURB_": str(v)}, pipe.CPU2, wall=800)
        if r.timeout:
            if r.rc == -24: chk.violation("hang:" + c.name, "run of %s does not end with fresh memory set to %d" % (c.ident(), 255 - v), d)
            else:
                with chk.lock: chk.inconclusive.append("no end within the limits: " + c.ident())
            return
        if r.rc != 0: chk.violation("crash:" + c.name, "run of %s ended with status %s when fresh memory is set to byte %d\n%s" % (c.ident(), r.rc, 255 - v, r.err[-800:]), d); return
        got = p04.files(d)
        if ref is None: ref = got; continue
        diff = sorted(f for f in set(ref) | set(got) if ref.get(f) != got.get(f))
        if diff: chk.violation("uninitialised:" + c.name, "%s of the run of %s depend on the contents of fresh memory (bytes %d and %d)" % (diff, c.ident(), 255 - k[0], 255 - v), d); return
        chk.note("memory_patterns_compared")
    chk.case("fill/" + c.ident(), {"memory patterns": list(k), "case": c.ident()}); shutil.rmtree(d, ignore_errors=True)


HARNESSES = (("h_spatial", (6, 800)), ("h_voronoi", (60,)), ("h_geom", (300,)), ("h_linsolve", (1500,)), ("h_polymesh", (80,)), ("h_random", (4,)), ("h_tables", (60,)), ("h_kdflat", (10,)))


def body(chk):
    chk.rule = "case = one mesher or harness run under AddressSanitizer and UBSan, or one run repeated with different contents of fresh memory"
    chk.assumptions.append("leaks are not judged; UBSan covers -fsanitize=undefined and float-cast-overflow; library containers run with assertions")
    exe = chk.b.exe("asani"); plain = chk.b.exe("inline"); rng = np.random.default_rng([chk.seed, 101]); k = lambda n=1: [int(x) for x in rng.integers(1, 255, n)]
    cs = meshgen.cases("P01", chk.seed, 60 if chk.thorough else 7, ({"model": "nested", "split": True, "shuffle": False}, {"model": "hullr", "sizing": "point"}, {"model": "cyl"}, {"model": "stack2", "sizing": "many"}, {"model": "ridge"}), dear=.1)
    fs = meshgen.cases("P01", chk.seed + 7000, 60 if chk.thorough else 6, ({"model": "hullr", "sizing": "point"}, {"model": "octa", "sizing": "many"}, {"model": "lshape"}), dear=.1)
    jobs = []
    for i, c in enumerate(cs):
        c.cfg["GENERATE_VCG_FILE"] = ""; pts = None
        if i % 2: c.cfg["IMPOSE_MONITORING_POINTS"] = ""; pts = p04.points(c.model(), rng, 60)
        elif i % 4 == 2: c.cfg["GENERATE_MONITORING_POINTS"] = ""
        jobs.append((c.name in meshgen.DEAR, lambda c=c, pts=pts, s="inline:%d" % k()[0]: mesher(chk, exe, c, pts, s)))
    for i, c in enumerate(fs):
        c.cfg["GENERATE_VCG_FILE"] = ""; pts = None
        if i % 2 == 0: c.cfg["IMPOSE_MONITORING_POINTS"] = ""; pts = p04.points(c.model(), rng, 40)
        jobs.append((c.name in meshgen.DEAR, lambda c=c, pts=pts, v=k(3): fill(chk, plain, c, pts, v)))
    m = 10 if chk.thorough else 1
    for i in range(8 if chk.thorough else 2): jobs.append((False, lambda i=i: opened(chk, exe, chk.seed * 2 + i)))
    for i in range(3 * m):
        jobs.append((False, lambda i=i: cells(chk, exe, ("shells", 260, chk.seed * 100 + i))))
        jobs.append((False, lambda i=i: cells(chk, exe, (["graded", "clusters", "pairs", "sphere", "plane", "uniform"][(chk.seed * 3 + i) % 6], 400, chk.seed * 100 + i))))
    for h, a in HARNESSES:
        x = chk.b.exe("asani", os.path.join(fw.VERIF, "src", h + ".cpp")) if h != "h_kdflat" else harness.optional(chk, "asani", h + ".cpp")
        if x:
            for i in range(m): jobs.append((False, lambda x=x, a=a, h=h, i=i: harness.run(chk, x, (chk.seed * 1000 + 500 + i,) + a, "%s_%d" % (h, i), cpu=400, env=dict(ENV, VC_SEED=str(chk.seed * 31 + i)), functional=False, cases=False) and chk.case("harness/%s/%d" % (h, i))))
    jobs.sort(key=lambda j: not j[0])
    chk.parallel(lambda j: j[1](), jobs)


if __name__ == "__main__": fw.main("P01", body)
