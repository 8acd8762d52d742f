"""P10: every seed and cell carries the region it lies in"""
import os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from concurrent.futures import ThreadPoolExecutor
import numpy as np
import fw, harness, meshgen, oracle, p12, pipe
from scipy.spatial import cKDTree


def patches(chk, x, block, n):
    """seeds with random patch ids: patches joined by a facet between two interior seeds must end as one region, others not"""
    d = os.path.join(chk.work, "regions%d" % block); os.makedirs(d, exist_ok=True); cases = []
    for k in range(n):
        rng = np.random.default_rng([chk.seed, 10, block, k])
        X, R = p12.seeds_set(["uniform", "ball", "jitter", "plane", "clusters"][int(rng.integers(5))], int(rng.choice([25, 60, 150])), rng)
        N = len(X); inside = R != 0; npatch = int(rng.integers(2, 40))
        mode = rng.integers(3)
        if mode == 0: ids = 1 + rng.integers(npatch, size=N)
        elif mode == 1: c = rng.uniform(-1, 1, (npatch, 3)); ids = 1 + rng.permutation(npatch)[cKDTree(c).query(X)[1]]        # contiguous patches
        else: ids = 1 + (np.argsort(np.argsort(X @ rng.normal(size=3))) * npatch // N); ids = rng.permutation(npatch + 1)[ids - 1] + 1   # layers, arbitrary numbers
        surf = inside & (rng.uniform(size=N) < rng.choice([0, .2, .5, .8]))        # meshed seeds that merge nothing
        order = np.r_[rng.permutation(np.where(~inside | surf)[0]), rng.permutation(np.where(inside & ~surf)[0])]
        ids = np.where(inside, ids, 0); X, ids = X[order], ids[order]; ns = int((~inside | surf).sum())
        nn = cKDTree(X).query(X, 2)[0][:, 1]; th = int(rng.integers(1, 5))
        with open(os.path.join(d, "case%d.csv" % k), "w") as f:
            f.write("%d %d\n" % (ns, th)); f.writelines("%.17g %.17g %.17g %.17g %d\n" % (*p, s, i) for p, s, i in zip(X, nn, ids))
        cases.append((X, ids, ns))
    harness.run(chk, x, [n], "regions%d" % block, cpu=120, cwd=d, env={"VC_SCHED": "inline:%d" % (chk.seed + block), "OMP_NUM_THREADS": "8"}, prefix="patches-")
    for k, (X, ids, ns) in enumerate(cases):
        p = os.path.join(d, "mesh%d.vcg" % k)
        if not os.path.exists(p): continue
        C, K, _ = oracle.read_vcg(p); ix = np.where(ids != 0)[0]; label = "patches %d/%d" % (block, k); src = {"case.csv": open(os.path.join(d, "case%d.csv" % k)).read()}
        if len(C) != len(ix): chk.violation("patches-cells", "%d cells for %d meshed seeds (%s)" % (len(C), len(ix), label), files=src); return
        up = {int(i): int(i) for i in np.unique(ids)}
        def root(i):
            while up[i] != i: i = up[i]
            return i
        links = 0
        for r in K:
            a, b = int(r[0]) - 1, int(r[1]) - 1
            if a == b or ix[a] < ns or ix[b] < ns: continue
            p, q = root(int(ids[ix[a]])), root(int(ids[ix[b]]))
            if p != q: links += 1; up[max(p, q)] = min(p, q)
        want = np.array([root(int(ids[i])) for i in ix]); got = C[:, 5].astype(int)
        if (want != got).any():
            j = int(np.where(want != got)[0][0])
            chk.violation("patches-region", "cell %d of patch %d is written with region %d, its patch is connected to region %d (%s: %d patches, %d links)" % (j + 1, ids[ix[j]], got[j], want[j], label, len(up) - 1, links), files=src); return
        chk.note("patches_judged", len(up) - 1); chk.note("patch_links", links); chk.note("patch_regions", len(np.unique(want))); chk.case("patches/%d/%d" % (block, k))
    shutil.rmtree(d, ignore_errors=True)


def body(chk):
    chk.rule = "case = one complete mesher run whose result files were judged, distinct by model, configuration, orientation, input layout and random seed; or one set of seeds with patch ids"
    exe = chk.b.exe("inline")
    # disjoint bodies: see known_findings.json
    def apart(_):
        R = pipe.run_case(chk, exe, pipe.Case("twobox", 1, {"LIP_CONST": ".4"}), cpu=2, cpu2=35)
        if R is None: return
        m = {}; pipe.judge(chk, R, oracle.o_regions(R, m), m); chk.case("twobox"); pipe.drop(R)
    x = harness.optional(chk, "asani", "h_regions.cpp")
    with ThreadPoolExecutor(1) as ex:
        bg = ex.submit(apart, 0)
        if x: chk.parallel(lambda b: patches(chk, x, b, 40 if chk.thorough else 12), range(40 if chk.thorough else 8))
        if not chk.stop.is_set(): models(chk)
        bg.result()


def models(chk):
    meshgen.body(chk, [lambda R, m, rng: oracle.o_regions(R, m)], n_quick=12, must=(
        {"model": "nested", "split": False}, {"model": "stack3", "split": False}, {"model": "quad", "split": True}, {"model": "sphereinbox", "split": False}, {"model": "stack2", "split": True}, {"model": "frame"}, {"model": "quad", "split": False, "flip": True}))


if __name__ == "__main__": fw.main("P10", body)
