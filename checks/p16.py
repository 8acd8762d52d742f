"""P16: reading, welding, merging and writing models preserves their geometry"""
import os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np
import fw, harness, oracle, zoo, pipe


def merge(chk, exe, job):
    """Several input files: the model that vc_mesh combines (written before meshing starts) is the union of the files."""
    i, seed = job
    rng = np.random.default_rng([seed, i, 16]); d = os.path.join(chk.work, "m%d" % i); os.makedirs(d)
    m = zoo.make(str(rng.choice(["stack2", "stack3", "quad", "nested", "ridge", "lshape", "hullr"])), int(rng.integers(1, 9)), bool(rng.uniform() < .5), float(rng.choice([1, 7.5])), tuple(rng.uniform(-2, 2, 3)))
    F = np.asarray(m.F); V = np.asarray(m.V); k = int(rng.integers(2, 6)); lab = rng.integers(k, size=len(F))
    if rng.uniform() < .4:
        c = V[F].mean(1) @ rng.normal(size=3); lab = np.digitize(c, np.quantile(c, np.linspace(0, 1, k + 1)[1:-1]))
    near = rng.choice(len(V), min(len(V), int(rng.integers(0, 5))), replace=False)   # small triangles at vertices of the model: close to them, but not to be merged
    for v in near:
        l = 10 ** rng.uniform(-7.3, -2.5); n = len(V)
        V = np.vstack([V, V[v] + l * np.eye(3)[rng.permutation(3)][:2] * rng.choice([-1, 1], (2, 1))]); F = np.vstack([F, [[v, n, n + 1]]]); lab = np.r_[lab, rng.integers(k)]
    want = []; names = []
    for j in range(k):
        G = F[lab == j]
        if len(G) == 0: G = F[:1]
        use = np.unique(G); use = rng.permutation(use); new = {int(v): n for n, v in enumerate(use)}
        P = V[use] + rng.normal(size=(len(use), 3)) * (0 if rng.uniform() < .5 else 3e-11)
        n = "part%d.obj" % j; names.append(n)
        with open(os.path.join(d, n), "w") as f:
            for p in P: f.write("v %.17g %.17g %.17g\n" % tuple(p))
            for t in G:
                t = [new[int(v)] for v in t]; f.write("f %d %d %d\n" % tuple(v + 1 for v in t)); want.append([P[v] for v in t])
    with open(os.path.join(d, "vc.in"), "w") as f:
        f.write("".join("INPUT_MESH_FILE = %s\n" % n for n in names) + "R_MAX = 1000\nLIP_CONST = 0.25\nVC_ANGLE = 30\nNUM_THREADS = 1\n")
    out = os.path.join(d, "model_combined.obj")
    for cpu in (2, 30):
        r = fw.run([exe, "-vc", "vc.in"], cwd=d, env={"VC_SCHED": "inline:1"}, cpu=cpu)
        if os.path.exists(out): break
    if not os.path.exists(out):
        chk.violation("merge-missing:" + m.name, "no combined model for %d files of %s (status %s)\n%s" % (k, m.name, r.rc, r.err[-500:]), d); return
    try: W, T = oracle.read_obj(out)
    except (ValueError, IndexError) as e: chk.violation("merge-unreadable", "model_combined.obj cannot be read: %r" % e, d); return
    want = np.array(want)
    if len(W) != len(V): chk.violation("merge-vertices", "%d files of %s: %d vertices after merging instead of %d" % (k, m.name, len(W), len(V)), d); return
    if len(T) != len(want): chk.violation("merge-faces", "%d files of %s: %d triangles after merging instead of %d" % (k, m.name, len(T), len(want)), d); return
    from scipy.spatial import cKDTree
    q, close = cKDTree(W).query(want.reshape(-1, 3)); L = m.bbox_diag()
    if q.max() > 1.01e-8: chk.violation("merge-moved", "a vertex is %g away from its place after merging %d files of %s" % (q.max(), k, m.name), d); return
    canon = lambda A: sorted(tuple(np.roll(t, -int(np.argmin(t)))) for t in np.asarray(A).tolist())
    if canon(close.reshape(-1, 3)) != canon(T): chk.violation("merge-triangles", "the triangles of %d files of %s are not those of the combined model" % (k, m.name), d); return
    chk.note("files_merged", k); chk.note("triangles_merged", len(T)); chk.note("small_triangles_kept", len(near))
    chk.case("merge/%s/%d/%d" % (m.name, k, i), {"model": m.name, "files": k, "triangles": len(T)})
    import shutil; shutil.rmtree(d, ignore_errors=True)


def body(chk):
    chk.rule = "case = one model whose vertices and oriented triangles were compared after welding, reading, saving or merging"
    chk.assumptions.append("written coordinates are compared to 16 significant digits, the number the program writes")
    exe = chk.b.exe("inline", os.path.join(fw.VERIF, "src", "h_polymesh.cpp"))
    n = 32 if chk.thorough else 8
    jobs = [(exe, (chk.seed * 1000 + i, 1500 if chk.thorough else 250), "poly%d" % i) for i in range(n)]
    chk.parallel(lambda j: harness.run(chk, *j, cpu=300), jobs)
    if chk.stop.is_set(): return
    vc = chk.b.exe("inline")
    chk.parallel(lambda j: merge(chk, vc, j), [(i, chk.seed) for i in range(160 if chk.thorough else 24)])


if __name__ == "__main__": fw.main("P16", body)
