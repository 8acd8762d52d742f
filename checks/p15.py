"""P15: monitoring points are honoured"""
import copy, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np
from scipy.spatial import cKDTree
import fw, meshgen, oracle, pipe


def candidates(A, rng, n):
    """points of every kind: deep inside, just outside and just inside spheres, outside the model, near edges and corners"""
    V, F = np.asarray(A.m.V), np.asarray(A.m.F); lo, hi = V.min(0), V.max(0); D = A.L; S = A.spheres
    P = [rng.uniform(lo - .15 * D, hi + .15 * D, (n, 3)), rng.uniform(lo, hi, (2 * n, 3))]
    u = rng.normal(size=(2 * n, 3)); u /= np.linalg.norm(u, axis=1)[:, None]; k = rng.integers(len(S), size=2 * n)
    P.append(S[k, :3] + u * (S[k, 3] * (1 + rng.choice([-.2, -1e-3, 1e-3, .05, .3], size=2 * n)))[:, None])
    P.append(A.seeds[rng.integers(len(A.seeds), size=n // 2), :3] + rng.normal(size=(n // 2, 3)) * D * .01)
    P = np.vstack(P); P = P[rng.permutation(len(P))]
    return np.round(P / D, 9) * D


def judge_points(chk, c, R, P, rad, label):
    """which of the points P had to be accepted; compares with the seeds"""
    S = R.spheres; d = np.linalg.norm(P[:, None] - S[None, :, :3], axis=2) - S[None, :, 3] if len(P) * len(S) < 4e6 else np.array([np.linalg.norm(p - S[:, :3], axis=1) - S[:, 3] for p in P])
    gap = d.min(1); reg = R.m.classify(P); L = R.L
    sd = oracle.tri_dist(P, np.asarray(R.m.V), np.asarray(R.m.F))
    clear = (np.abs(gap) > 1e-7 * L) & (sd > 1e-7 * L)
    want = (gap > 0) & (reg > 0)
    s = R.seeds; q, j = R.tree.query(P); got = q < 1e-10 * L
    bad = clear & (want != got)
    if bad.any():
        i = np.where(bad)[0][0]
        chk.violation("%s:%s" % ("rejected" if want[i] else "accepted", label), "monitoring point %s (region %d, %g outside the nearest sphere, nearest seed %g away) was %s; %d such points\ncase %s" % (P[i], reg[i], gap[i], q[i], "left out although admissible" if want[i] else "imposed although inadmissible", int(bad.sum()), c.ident()), R.d); return None
    ok = clear & want; k = j[ok]
    exact = np.abs(s[k, :3] - P[ok]).max() if ok.any() else 0
    chk.maxi("position_err", float(exact / L))
    if exact > 2e-15 * L * 8: chk.violation("moved:" + label, "a monitoring point was moved by %g\ncase %s" % (exact, c.ident()), R.d); return None
    if len(set(k.tolist())) != len(k): chk.violation("shared:" + label, "one seed serves two monitoring points\ncase %s" % c.ident(), R.d); return None
    # the region of the seed is the region of the place: same id as the surface and interior seeds there
    ids = {}
    for i2, r2 in zip(s[:, 4].astype(int), R.reg): ids.setdefault(int(r2), set()).add(int(i2))
    for x, r2 in zip(k, reg[ok]):
        if int(s[x, 4]) == 0 or any(int(s[x, 4]) in v for q2, v in ids.items() if q2 != r2): chk.violation("region:" + label, "monitoring point %s of region %d carries region id %d\ncase %s" % (s[x, :3], r2, s[x, 4], c.ident()), R.d); return None
    chk.note("points_admissible", int(ok.sum())); chk.note("points_inadmissible", int((clear & ~want).sum())); chk.note("points_in_sphere", int((clear & (gap < 0)).sum())); chk.note("points_outside_model", int((clear & (reg == 0)).sum()))
    return k


def among(R, m, k, n0):
    """sizes and distances of the seeds that were not imposed: as without monitoring points"""
    s = R.seeds; X, S = s[:, :3], s[:, 3]; imp = np.zeros(len(s), bool); imp[k] = True; lip = float(R.cfg.get("LIP_CONST", 0.1)); first = int(k.max()) + 1 if len(k) else n0
    if (S <= 0).any(): yield "size<=0", "seed %s has a non-positive size" % s[(S <= 0).argmax()]
    pr = R.tree.query_pairs(S.max(), output_type="ndarray"); pr = pr[~imp[pr].any(1)]
    if not len(pr): return
    d = np.linalg.norm(X[pr[:, 0]] - X[pr[:, 1]], axis=1); a, b = pr.min(1), pr.max(1); later = b >= first; q = d / S[a]; m["among_pairs"] = len(pr)
    if later.any() and q[later].min() < 1 - 1e-5: i = np.where(later)[0][q[later].argmin()]; yield "separation", "interior seed %s lies inside the earlier seed %s (distance %g of its size)" % (s[b[i]], s[a[i]], q[i])
    big, sm = np.maximum(S[a], S[b]), np.minimum(S[a], S[b]); ex = np.where(d <= big, big - sm - lip * d, -np.inf); m["among_lip_excess"] = float(ex.max() / R.L)
    if ex.max() > 1e-9 * R.L: i = ex.argmax(); yield "lipschitz", "seeds %s and %s break the Lipschitz bound by %g" % (s[a[i]], s[b[i]], ex[i])


def one(chk, exe, c, how):
    base = copy.copy(c); base.cfg = dict(c.cfg); base.tag = how + "A"; base.cfg.pop("GENERATE_VCG_FILE", None)
    if how == "generated": base.cfg["GENERATE_MONITORING_POINTS"] = ""
    A = pipe.run_case(chk, exe, base)
    if A is None: return
    rng = np.random.default_rng([chk.seed, c.seed, 15]); n0 = 2 * A.nf
    sz = A.seeds; T = A.tree; lip = float(c.cfg["LIP_CONST"])
    size_at = lambda P: np.array([np.min(sz[:, 3] + lip * np.linalg.norm(sz[:, :3] - p, axis=1)) for p in P])
    if how == "generated":
        p = A.path("monitoring_points.csv")
        if not os.path.exists(p): chk.violation("not-generated:" + c.name, "no monitoring_points.csv was written\ncase %s" % base.ident(), A.d); return
        M = oracle.read_csv(p); inter = sz[n0:]
        if len(M) != min(100, len(inter)): chk.violation("generated-count:" + c.name, "%d monitoring points for %d interior seeds\ncase %s" % (len(M), len(inter), base.ident()), A.d); return
        if len(M):
            q, j = cKDTree(inter[:, :3]).query(M[:, :3])
            if q.max() > 1e-14 * A.L or np.abs(inter[j, 3] - M[:, 3]).max() > 1e-14 * A.L or len(set(j.tolist())) != len(j): chk.violation("generated-points:" + c.name, "the generated monitoring points are not distinct interior seeds with their sizes\ncase %s" % base.ident(), A.d); return
        chk.note("points_generated", len(M)); P, rad = M[:, :3], M[:, 3]
        text = open(p).read()
    else:
        P = candidates(A, rng, 60); rad = size_at(P)
        keep = []
        if how != "dense":   # as a user would give them: no two within each other's size
            o = np.argsort(rng.uniform(size=len(P)))
            for i in o:
                if all(np.linalg.norm(P[i] - P[k]) > 1.2 * max(rad[i], rad[k]) for k in keep): keep.append(i)
        else: keep = list(range(len(P)))
        keep = np.array(keep); P, rad = P[keep], rad[keep]
        if how == "oversized": rad = np.round(rad * rng.uniform(1, 2.5, len(P)) / A.L, 9) * A.L   # larger than the spacing there
        text = "x1coord, x2coord, x3coord, radius\n" + "".join("%.17g, %.17g, %.17g, %.17g\n" % (*x, r) for x, r in zip(P, rad))
    B = copy.copy(c); B.cfg = dict(c.cfg); B.tag = how + "B"; B.cfg["IMPOSE_MONITORING_POINTS"] = ""
    R = pipe.run_case(chk, exe, B, prep=lambda d, m: open(os.path.join(d, "monitoring_points.csv"), "w").write(text))
    if R is None: return
    k = judge_points(chk, c, R, P, rad, "%s:%s" % (how, c.name))
    if k is None: return
    # nothing else is disturbed: surface as before, other guarantees intact
    if open(A.path("surface_mesh.obj"), "rb").read() != open(R.path("surface_mesh.obj"), "rb").read(): chk.violation("surface:" + c.name, "imposing monitoring points changed the reconstructed surface\ncase %s" % B.ident(), R.d); return
    gens = [("pairs", lambda m: oracle.o_pairs(R, m)), ("regions", lambda m: oracle.o_regions(R, m)), ("conserve", lambda m: oracle.o_conserve(R, m)),
            ("voronoi", lambda m: oracle.o_voronoi(R.seeds[:, :3], R.seeds[:, 4], R.vcg, m, R.L))]
    if how in ("sparse", "generated"): gens.append(("interior", lambda m: oracle.o_interior(R, m, np.random.default_rng(chk.seed), c.sizing, extra=max(0, int(k.max()) + 1 - n0) if len(k) else 0, cover_bound=3.0)))
    if how in ("dense", "oversized"): gens.append(("among", lambda m: among(R, m, k, n0)))
    for name, g in gens:
        m = {}
        if pipe.judge(chk, R, g(m), m): return
    if len(k): chk.note("seeds_before_the_imposed_ones", int(k.min()) - n0)
    # no seed generated afterwards lies inside the sphere of an imposed point, whose size is the requested one
    if len(k):
        i = np.where(R.tree.query(P)[0] < 1e-10 * R.L)[0]; j = R.tree.query(P[i])[1]; later = np.arange(len(R.seeds)) > k.max()
        if np.abs(R.seeds[j, 3] - rad[i]).max() > 1e-9 * R.L: b = np.abs(R.seeds[j, 3] - rad[i]).argmax(); chk.violation("size:" + c.name, "the seed of monitoring point %s has size %g instead of %g\ncase %s" % (P[i[b]], R.seeds[j[b], 3], rad[i[b]], B.ident()), R.d); return
        if later.any():
            X = R.seeds[later, :3]; q = np.array([np.linalg.norm(X - P[x], axis=1).min() / rad[x] for x in i]); chk.mini("later_seed_distance_min", float(q.min()))
            if q.min() < 1 - 1e-9: b = q.argmin(); chk.violation("crowded:" + c.name, "a generated seed lies inside the sphere of monitoring point %s (%g of its radius %g)\ncase %s" % (P[i[b]], q[b], rad[i[b]], B.ident()), R.d); return
    # the file of closest seeds
    q = R.path("monitoring_points_closest_seeds.csv")
    Q = oracle.read_csv(q) if os.path.exists(q) else np.zeros((0, 4))
    if len(Q) != len(P): chk.violation("closest-count:" + c.name, "%d closest seeds for %d monitoring points\ncase %s" % (len(Q), len(P), B.ident()), R.d); return
    qd, qj = R.tree.query(Q[:, :3]); far = np.linalg.norm(Q[:, :3] - P, axis=1) - R.tree.query(P)[0]
    if qd.max() > 1e-12 * R.L: i = qd.argmax(); chk.violation("closest-no-seed:" + c.name, "the seed %s reported for monitoring point %s is no seed of the mesh (nearest one %g away)\ncase %s" % (Q[i, :3], P[i], qd[i], B.ident()), R.d); return
    if far.max() > 1e-9 * R.L: i = far.argmax(); chk.violation("closest-wrong:" + c.name, "the seed %s reported for monitoring point %s is not the closest one (%g farther)\ncase %s" % (Q[i, :3], P[i], far[i], B.ident()), R.d); return
    chk.note("closest_seeds_compared", len(Q))
    chk.case(B.ident(), {"case": B.ident(), "points": int(len(P)), "imposed": int(len(k)), "seeds": int(len(R.seeds))}); chk.note("cases_" + how)
    pipe.drop(A); pipe.drop(R)


def body(chk):
    chk.rule = "case = one mesher run with monitoring points whose admissibility was recomputed from the input model and the sphere files"
    exe = chk.b.exe("inline")
    cs = meshgen.cases("P15", chk.seed, 90 if chk.thorough else 10, ({"model": "nested"}, {"model": "lshape", "sizing": "point"}, {"model": "stack2", "split": False}, {"model": "box", "cfg": {"LIP_CONST": "0.4"}}), dear=.2)
    jobs = [(c, ("oversized", "generated", "sparse", "dense")[i % 4]) for i, c in enumerate(cs)]
    for c, h in jobs: c.cfg["GENERATE_VCG_FILE"] = ""
    chk.parallel(lambda j: one(chk, exe, *j), jobs)


if __name__ == "__main__": fw.main("P15", body)
