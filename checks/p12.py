"""P12: cells and connections written for a set of seeds against an independent Voronoi diagram (qhull)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np
import fw, oracle, pipe
from pipe import Case


def seeds_set(kind, n, rng):
    """n inside seeds plus an outer layer of region-0 seeds that bounds every inside cell."""
    if kind == "uniform": P = rng.uniform(-1, 1, (n, 3))
    elif kind == "ball": P = rng.normal(size=(n, 3)); P = P / np.linalg.norm(P, axis=1)[:, None] * rng.uniform(0, 1, (n, 1)) ** (1 / 3)
    elif kind == "graded":
        d = rng.normal(size=(n, 3)); d /= np.linalg.norm(d, axis=1)[:, None]; P = d * (10 ** rng.uniform(-2.2, 0, (n, 1))); P[:, 0] += .3
    elif kind == "plane": P = rng.uniform(-1, 1, (n, 3)) * [1, 1, .02]
    elif kind == "line": P = rng.uniform(-1, 1, (n, 3)) * [1, .03, .03]
    elif kind == "clusters":
        c = rng.uniform(-1, 1, (6, 3)); P = c[rng.integers(6, size=n)] + rng.normal(size=(n, 3)) * .05
    elif kind == "sphere":
        P = rng.normal(size=(n, 3)); P /= np.linalg.norm(P, axis=1)[:, None]; P *= 1 + rng.normal(size=(n, 1)) * 1e-3
    elif kind == "jitter":
        k = int(round(n ** (1 / 3))) + 1; g = np.stack(np.meshgrid(*[np.arange(k)] * 3), -1).reshape(-1, 3) / (k / 2.) - 1; P = g + rng.normal(size=g.shape) * .12 / k
    elif kind == "pairs":
        P = rng.uniform(-1, 1, (n // 2, 3)); P = np.vstack([P, P + rng.normal(size=P.shape) * .01])
    n = len(P)
    lo, hi = P.min(0), P.max(0); D = np.linalg.norm(hi - lo); c = (lo + hi) / 2
    k = 60 + n // 4
    G = rng.normal(size=(k, 3)); G = c + G / np.linalg.norm(G, axis=1)[:, None] * D * rng.uniform(.8, 1.6, (k, 1))
    o = rng.uniform(size=3); o /= np.linalg.norm(o)
    reg = 1 + ((P - c) @ o > 0).astype(int) * rng.integers(0, 3) + (rng.uniform(size=n) < .1)
    ghosts_inside = rng.uniform(size=n) < (.15 if rng.uniform() < .4 else 0)
    reg[ghosts_inside] = 0
    X = np.vstack([P, G]); R = np.r_[reg, np.zeros(k, int)]
    p = rng.permutation(len(X)) if rng.uniform() < .7 else np.arange(len(X))
    return X[p], R[p]


def write(d, X, sz, R, threads):
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "s.csv"), "w") as f:
        f.write("x1coord, x2coord, x3coord, radius, region_id\n")
        for x, s, r in zip(X, sz, R): f.write("%.17g, %.17g, %.17g, %.17g, %d\n" % (x[0], x[1], x[2], s, r))
    open(os.path.join(d, "vc.in"), "w").write("SEEDS_FILE = s.csv\nGENERATE_MESH_FROM_SEEDS\nGENERATE_VCG_FILE\nNUM_THREADS = %d\n" % threads)


def execute(chk, exe, d, label, sched):
    for cpu in (60, 200):
        r = fw.run([exe, "-vc", "vc.in"], cwd=d, env={"VC_SCHED": sched}, cpu=cpu)
        if not r.timeout: break
    if r.timeout: chk.violation("hang:" + label, "meshing the seeds of %s does not terminate" % label, d); return None
    if r.rc != 0: chk.violation("crash:" + label, "status %s on %s\n%s" % (r.rc, label, r.err[-800:]), d); return None
    p = os.path.join(d, "mesh.vcg")
    if not os.path.exists(p): chk.violation("no-output:" + label, "no mesh.vcg for %s" % label, d); return None
    return open(p, "rb").read()


def one(chk, exe, job):
    kind, n, seed, scale = job
    rng = np.random.default_rng([seed, 12])
    X, R = seeds_set(kind, n, rng); shift = rng.normal(size=3) * rng.choice([0, 1, 30, 3000]); X = (X + shift) * scale
    from scipy.spatial import cKDTree
    nn = cKDTree(X).query(X, 2)[0][:, 1]
    mode = seed % 3
    sz = nn if mode == 0 else (np.full(len(X), np.median(nn)) if mode == 1 else nn * 10 ** rng.uniform(-1.5, 1.5, len(X)))
    label = "%s/%d/%d/x%g" % (kind, n, seed, scale); L = float(np.ptp(X[R != 0], axis=0).max())
    d = os.path.join(chk.work, "v%s_%d_%d_%g" % job); t = int(rng.integers(1, 9))
    write(d, X, sz, R, t)
    a = execute(chk, exe, d, label, "inline:%d" % seed)
    if a is None: return
    m = {}
    def guard(gen):
        try:
            for key, msg in gen: chk.violation("%s:%s" % (key, kind), "%s\nseeds of %s, %d threads" % (msg, label, t), d); return False
        except (ValueError, IndexError, KeyError) as e: chk.violation("unreadable:" + kind, "mesh.vcg cannot be interpreted: %r (%s)" % (e, label), d); return False
        return True
    vcg = None
    try: vcg = oracle.read_vcg(os.path.join(d, "mesh.vcg"))
    except (ValueError, IndexError, KeyError) as e: chk.violation("unreadable:" + kind, "mesh.vcg cannot be read: %r (%s)" % (e, label), d); return
    if not guard(oracle.o_voronoi(X, R, vcg, m, L)): return
    if (vcg[0][:, 5].astype(int) != R[R != 0]).any(): chk.violation("region:" + kind, "cells do not carry the region ids of the seeds file (%s)" % label, d); return
    for k, v in m.items():
        (chk.maxi if k.endswith("_err") else chk.note)(k, v)
    # the same set, threads and thread order changed: byte identical
    t2 = int(rng.integers(1, 17))
    write(d, X, sz, R, t2)
    b = execute(chk, exe, d, label, "inline:%d" % (seed + 1000))
    if b is None: return
    chk.note("thread_pairs_compared")
    if a != b: chk.violation("threads:" + kind, "%d and %d threads write different meshes for the same seeds (%s)" % (t, t2, label), d); return
    # the same set in another order, other sizes: the same diagram
    p = rng.permutation(len(X)); write(d, X[p], (sz * rng.uniform(.5, 2))[p], R[p], t)
    if execute(chk, exe, d, label, "inline:%d" % seed) is None: return
    vcg2 = oracle.read_vcg(os.path.join(d, "mesh.vcg")); m = {}
    if not guard(oracle.o_voronoi(X[p], R[p], vcg2, m, L)): return
    q = np.cumsum(R != 0) - 1; back = p[R[p] != 0]          # position in the permuted list -> original seed
    if len(vcg[0]) != len(vcg2[0]) or np.abs(vcg2[0][:, 4] - vcg[0][q[back], 4]).max() > 1e-6 * np.abs(vcg[0][:, 4]).max():
        chk.violation("order:" + kind, "cell volumes depend on the order of the seeds (%s)" % label, d); return
    chk.note("orders_compared"); chk.note("seeds", len(X)); chk.maxi("max_grading", float(nn.max() / nn.min()))
    chk.case(label, {"set": label, "cells": int(len(vcg[0])), "connections": int(len(vcg[1]))})


def body(chk):
    chk.rule = "case = one set of seeds whose mesh file was compared cell by cell and facet by facet with qhull's diagram, twice (original and permuted order), and byte by byte across thread counts and orders"
    exe = chk.b.exe("inline")
    jobs = []
    kinds = ["uniform", "ball", "graded", "plane", "line", "clusters", "sphere", "jitter", "pairs"]
    reps = 12 if chk.thorough else 2
    for rep in range(reps):
        for i, k in enumerate(kinds):
            s = chk.seed * 1000 + rep * 20 + i
            jobs.append((k, ([150, 900, 2500, 40] if chk.thorough else [150, 500, 1200, 40])[(rep + i) % 4], s, [1., 3e4, 50., 1e-3][(rep + i + chk.seed) % 4]))
    if chk.thorough: jobs += [("uniform", 20000, chk.seed * 1000 + 900, 1.), ("graded", 12000, chk.seed * 1000 + 901, 1.)]
    chk.parallel(lambda j: one(chk, exe, j), jobs)
    # the seeds of real runs: strongly graded pairs of surface seeds with interior seeds between them
    cases = [Case("nested", seed=chk.seed, cfg={"NUM_THREADS": 3}, vcseed=chk.seed + 5), Case("lshape", seed=chk.seed, rotate=True, vcseed=chk.seed + 6), Case("sphere", seed=chk.seed, cfg={"NUM_THREADS": 2}, vcseed=chk.seed + 7)]
    if chk.thorough: cases += [Case(n, seed=chk.seed + 9, rotate=True, cfg={"NUM_THREADS": 4}, vcseed=chk.seed + 8) for n in pipe.BIGGER]
    def real(c):
        R = pipe.run_case(chk, exe, c)
        if R is None: return
        m = {}
        pipe.judge(chk, R, oracle.o_voronoi(R.seeds[:, :3], R.seeds[:, 4], R.vcg, m, R.L), m)
        chk.case(c.ident(), {"model": c.name, "seeds": len(R.seeds)}); pipe.drop(R)
    if not chk.stop.is_set(): chk.parallel(real, cases)


if __name__ == "__main__": fw.main("P12", body)
