"""P20: sharp features against an independent detector, for many presentations of each model"""
import os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np
import fw, harness, pipe, zoo


def reference(V, F):
    """edges: {(a,b): (number of faces, cos of the angle between the outward sides)}; the piece of every face (joined through two-face edges)"""
    N = np.cross(V[F[:, 1]] - V[F[:, 0]], V[F[:, 2]] - V[F[:, 0]]); N /= np.linalg.norm(N, axis=1)[:, None]
    e = {}
    for i, t in enumerate(F):
        for k in range(3):
            a, b = int(t[k]), int(t[(k + 1) % 3]); e.setdefault((min(a, b), max(a, b)), []).append(i)
    return {k: (len(f), float(N[f[0]] @ N[f[1]]) if len(f) == 2 else None) for k, f in e.items()}, N


def features(V, E, ct):
    """sharp edges, sharp corners, distance of the decisions from the threshold"""
    sharp = {k for k, (n, c) in E.items() if n != 2 or c < ct}; gap = min([abs(c - ct) for n, c in E.values() if n == 2], default=1.)
    at = {}
    for a, b in sharp: at.setdefault(a, []).append(b); at.setdefault(b, []).append(a)
    corners = set()
    for p, q in at.items():
        if len(q) != 2: corners.add(p); continue
        u, v = V[q[0]] - V[p], V[q[1]] - V[p]; c = -float(u @ v) / np.linalg.norm(u) / np.linalg.norm(v); gap = min(gap, abs(c - ct))
        if c < ct: corners.add(p)
    return sharp, corners, gap


def coherent(F):
    """every two-face edge is traversed once in each direction"""
    e = {}
    for t in F:
        for k in range(3): a, b = int(t[k]), int(t[(k + 1) % 3]); e.setdefault((min(a, b), max(a, b)), []).append(a < b)
    return all(len(v) != 2 or v[0] != v[1] for v in e.values())


def model(rng):
    """surfaces with all kinds of edges; only their edges matter here, so they may be open"""
    k = rng.integers(9)
    if k == 0: m = zoo.make(str(rng.choice(list(zoo.NAMES))), int(rng.integers(1000))); return m.name, m.V, m.F
    if k == 1:                                        # terrain, open
        n, m = rng.integers(3, 14, 2); x, y = np.meshgrid(np.arange(n), np.arange(m), indexing="ij"); z = rng.normal(size=(n, m)) * 10 ** rng.uniform(-1.5, .3); V = np.c_[x.ravel(), y.ravel(), z.ravel()].astype(float); F = []
        for i in range(n - 1):
            for j in range(m - 1): a, b, c, d = i * m + j, (i + 1) * m + j, (i + 1) * m + j + 1, i * m + j + 1; F += [[a, b, c], [a, c, d]] if rng.uniform() < .5 else [[a, b, d], [b, c, d]]
        return "terrain", V, np.array(F)
    if k == 2:                                        # convex hull
        P = rng.normal(size=(int(rng.integers(4, 60)), 3)); P *= rng.uniform(.2, 1, 3)
        if rng.uniform() < .4: P /= np.linalg.norm(P, axis=1)[:, None]
        return ("hull",) + tuple(zoo.hull(P))
    if k == 3:                                        # pages around one edge
        n = int(rng.integers(1, 8)); V = [[0, 0, 0], [0, 0, 1.]]; F = []
        for a in np.sort(rng.uniform(0, 2 * np.pi, n)): V.append([np.cos(a), np.sin(a), rng.uniform(0, 1)]); F.append([0, 1, len(V) - 1] if len(F) % 2 else [1, 0, len(V) - 1])
        return "pages%d" % n, np.array(V), np.array(F)
    if k == 4:                                        # prism: many equal bends
        n = int(rng.integers(3, 30)); a = np.arange(n) * 2 * np.pi / n; return ("prism%d" % n,) + tuple(zoo.extrude([(np.cos(t), np.sin(t)) for t in a], 0, rng.uniform(.2, 2), int(rng.integers(1, 4))))
    if k == 5:                                        # folded strip: edges shared by triangles of one crease line that turns
        n = int(rng.integers(3, 20)); t = np.linspace(0, 1, n); ang = rng.uniform(0, 2); c = np.c_[t * 3, np.cumsum(rng.normal(size=n)) * rng.choice([0, .05, .4]), np.cumsum(rng.normal(size=n)) * rng.choice([0, .05, .4])]; l = c + [0, 1, 0]; r = c + [0, -np.cos(ang), np.sin(ang)]; V = np.vstack([c, l, r]); F = []
        for i in range(n - 1): F += [[i, i + 1, n + i], [i + 1, n + i + 1, n + i], [i + 1, i, 2 * n + i], [i + 1, 2 * n + i, 2 * n + i + 1]]
        return "strip", V, np.array(F)
    if k == 6: xs = [np.r_[0, np.cumsum(rng.uniform(.3, 1, rng.integers(1, 4)))] for _ in range(3)]; m = zoo.grid_boxes("grid", *[list(x) for x in xs]); return "grid", m.V, m.F
    if k == 7: V, F = zoo.torus(1., rng.uniform(.1, .7), int(rng.integers(4, 24)), int(rng.integers(3, 16))); return "torus", V, F
    V, F = zoo.icosphere(int(rng.integers(0, 3))); return "ball", V * (1 + .3 * rng.uniform() * rng.normal(size=(len(V), 1))), F


def split(V, F, rng):
    """every triangle in four; the new vertices at or near the middle of the edges"""
    mid, V, G = {}, list(V), []; t = rng.choice([0, .2])
    def m(a, b):
        k = (min(a, b), max(a, b))
        if k not in mid: w = .5 + t * rng.uniform(-1, 1); mid[k] = len(V); V.append(w * V[k[0]] + (1 - w) * V[k[1]])
        return mid[k]
    for a, b, c in F: x, y, z = m(a, b), m(b, c), m(c, a); G += [[a, x, z], [x, b, y], [z, y, c], [x, y, z]]
    return np.array(V), np.array(G)


def present(V, F, rng):
    """another presentation: (V', F', old index of every new vertex)"""
    V, F = np.array(V, float), np.array(F)
    if rng.uniform() < .6: F = pipe.flip_patches(F, rng)
    R = zoo.rotation(rng) if rng.uniform() < .7 else np.eye(3)
    s = 10 ** rng.uniform(-3, 3) if rng.uniform() < .5 else 1.; V = (V @ R.T) * s + rng.normal(size=3) * s * rng.choice([0, 1, 50])
    p = rng.permutation(len(V)) if rng.uniform() < .8 else np.arange(len(V)); inv = np.argsort(p); V, F = V[p], inv[F]
    F = np.array([np.roll(t, int(rng.integers(3))) for t in F[rng.permutation(len(F))]])
    return V, F, p


def block(chk, x, b, n):
    d = os.path.join(chk.work, "f%d" % b); os.makedirs(d, exist_ok=True); todo = []; k = 0
    while k < n:
        rng = np.random.default_rng([chk.seed, 20, b, k, len(todo)]); name, V, F = model(rng); V, F = np.asarray(V, float), np.asarray(F)
        for _ in range(2):                            # edges split by vertices, also those of three and more faces
            if len(F) < 400 and rng.uniform() < .45: V, F = split(V, F, rng)
        E, _ = reference(V, F); cs = sorted({c for m, c in E.values() if m == 2})
        if not coherent(F): todo.append(None); continue
        # a threshold between two angles of the model, or one that users give
        ct = np.cos(np.radians(rng.choice([5., 10, 20, 30, 40, 60, 80]) + rng.uniform(-.5, .5)))
        if len(cs) > 1 and rng.uniform() < .6: i = int(rng.integers(len(cs) - 1)); ct = (cs[i] + cs[i + 1]) / 2
        S, C, gap = features(V, E, ct)
        if gap < 1e-7: todo.append(None); continue
        for j in range(2):
            if k >= n: break
            W, G, p = present(V, F, rng) if j else (V, F, np.arange(len(V)))
            with open(os.path.join(d, "in%d.txt" % k), "w") as f:
                f.write("%d %d %.17g\n" % (len(W), len(G), ct)); f.writelines("%.17g %.17g %.17g\n" % tuple(v) for v in W); f.writelines("%d %d %d\n" % tuple(t) for t in G)
            todo.append((k, name, S, C, p, float(np.degrees(np.arccos(ct))))); k += 1
    harness.run(chk, x, [n], "features%d" % b, cpu=40 + 25 * n, cwd=d, env={"VC_SCHED": "inline:%d" % b, "VC_SEED": str(chk.seed * 100 + b), "OMP_NUM_THREADS": "4"}, cases=False)
    for t in todo:
        if t is None: continue
        k, name, S, C, p, deg = t; o = os.path.join(d, "out%d.txt" % k)
        if not os.path.exists(o): continue
        w = open(o).read().split(); ne, nc = int(w[0]), int(w[1]); v = [int(a) for a in w[2:]]; src = {"in.txt": open(os.path.join(d, "in%d.txt" % k)).read(), "out.txt": open(o).read()}
        if len(v) != 2 * ne + nc or any(a >= len(p) for a in v): chk.violation("feature-list:" + name.rstrip("0123456789"), "the lists of features of %s are not usable" % name, files=src); return
        e = {(min(a, b), max(a, b)) for a, b in ((int(p[v[2 * i]]), int(p[v[2 * i + 1]])) for i in range(ne))}; c = [int(p[a]) for a in v[2 * ne:]]
        if e != S: chk.violation("sharp-edges:" + name.rstrip("0123456789"), "%s at %.4f degrees: %d sharp edges found that are none (%s), %d missed (%s)" % (name, deg, len(e - S), sorted(e - S)[:4], len(S - e), sorted(S - e)[:4]), files=src); return
        if set(c) != C or len(c) != len(C): chk.violation("sharp-corners:" + name.rstrip("0123456789"), "%s at %.4f degrees: %d corners found that are none (%s), %d missed (%s), %d listed twice" % (name, deg, len(set(c) - C), sorted(set(c) - C)[:4], len(C - set(c)), sorted(C - set(c))[:4], len(c) - len(set(c))), files=src); return
        chk.note("sharp_edges_judged", len(S)); chk.note("corners_judged", len(C)); chk.note("presentations_judged"); chk.case("%s/%d/%d" % (name, b, k), {"model": name, "threshold": round(deg, 3), "sharp edges": len(S), "corners": len(C)})
    shutil.rmtree(d, ignore_errors=True)


def body(chk):
    chk.rule = "case = one presentation of one model at one threshold, whose sharp edges, corners and point clouds were compared with the reference"
    chk.assumptions += ["two-face edges are traversed in opposite directions by their faces", "R_MIN = 0", "no angle within 1e-7 of the threshold's cosine"]
    x = chk.b.exe("inline", os.path.join(fw.VERIF, "src", "h_features.cpp"))
    chk.parallel(lambda b: block(chk, x, b, 24 if chk.thorough else 8), range(64 if chk.thorough else 16))


if __name__ == "__main__": fw.main("P20", body)
