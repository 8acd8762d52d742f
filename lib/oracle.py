"""Offline oracles over the files one run of the mesher writes. Every oracle yields (key, message) for a violation and
records what it measured through `m` (a dict of counters/maxima). Tolerances are relative to the model size and were
measured on the unchanged code to have at least two orders of magnitude of slack (see DESIGN.md)."""
import os
from collections import Counter
import numpy as np
from scipy.spatial import cKDTree


def read_csv(p):
    L = open(p).read().split("\n")
    rows = [[float(t) for t in l.split(",")] for l in L[1:] if l.strip()]
    return np.array(rows) if rows else np.zeros((0, 0))


def read_obj(p):
    V, F = [], []
    for l in open(p):
        t = l.split()
        if not t: continue
        if t[0] == "v": V.append([float(x) for x in t[1:4]])
        elif t[0] == "f": F.append([int(x.split("/")[0]) - 1 for x in t[1:4]])
    return np.array(V, float).reshape(-1, 3), np.array(F, int).reshape(-1, 3)


def read_vcg(p):
    with open(p) as f:
        h = f.readline().split(); n = int(h[1])
        C = np.array([[float(t) for t in f.readline().split()] for _ in range(n)]).reshape(n, -1 if n else 6)
        h = f.readline().split(); m = int(h[1])
        K = np.array([[float(t) for t in f.readline().split()] for _ in range(m)]).reshape(m, -1 if m else 9)
        rest = f.read().strip()
    return C, K, rest


class Run:
    """Result files of one run in directory d for input model m and configuration cfg (dict)."""
    def __init__(self, d, model, cfg):
        self.d, self.m, self.cfg = d, model, cfg
        self.L = model.bbox_diag()
        self._c = {}

    def __getattr__(self, k):
        c = self.__dict__["_c"]
        if k in c: return c[k]
        f = getattr(Run, "_get_" + k, None)
        if f is None: raise AttributeError(k)
        c[k] = f(self); return c[k]

    def path(self, f): return os.path.join(self.d, f)
    def _csv(self, f, w):
        if not os.path.exists(self.path(f)): return np.zeros((0, w))
        a = read_csv(self.path(f))
        return a if len(a) else np.zeros((0, w))
    def _get_corner(self): return self._csv("corner_spheres.csv", 9)
    def _get_edge(self): return self._csv("edges_spheres.csv", 9)
    def _get_surf(self): return self._csv("surface_spheres.csv", 9)
    def _get_seeds(self): return self._csv("seeds.csv", 5)
    def _get_smesh(self): return read_obj(self.path("surface_mesh.obj"))
    def _get_vcg(self): return read_vcg(self.path("mesh.vcg"))
    def _get_spheres(self):
        return np.vstack([x[:, :4] for x in (self.surf, self.edge, self.corner) if len(x)] or [np.zeros((0, 4))])
    def _get_kind(self): return np.repeat([0, 1, 2], [len(self.surf), len(self.edge), len(self.corner)])
    def _get_nf(self): return len(self.smesh[1])
    def _get_radii(self):
        """(min, max) distance from each sphere centre to the surface seeds of its triangles."""
        V, F = self.smesh; n = self.nf; s = self.seeds
        lo, hi = np.full(len(V), np.inf), np.zeros(len(V))
        for k in range(3):
            for q in (s[:n], s[n:2 * n]):
                d = np.linalg.norm(q[:, :3] - V[F[:, k]], axis=1)
                np.minimum.at(lo, F[:, k], d); np.maximum.at(hi, F[:, k], d)
        return lo, hi
    def _get_reg(self): return self.m.classify(self.seeds[:, :3])
    def _get_tree(self): return cKDTree(self.seeds[:, :3])
    def _get_feat(self):
        # shells given in files of their own keep both copies of a shared face, so the edges inside an interface have four
        split = getattr(self.__dict__.get("case"), "split", False)
        return Features(self.m, float(self.cfg.get("VC_ANGLE", 20)), split)
    def _get_interior(self):
        """indices of seeds that are not surface seeds"""
        return np.arange(2 * self.nf, len(self.seeds))


class Features:
    """Sharp edges/corners of a model by their definition: an edge is sharp if it does not have exactly two faces or its
    two faces' normals (consistently oriented) make an angle beyond the threshold; a corner is a point where sharp edges
    end, branch, or turn beyond the threshold. `margin` lists how close decisions were to the threshold."""
    def __init__(self, m, angle, split=False):
        V, F = m.V, m.F
        own = Counter(tuple(sorted((int(f[k]), int(f[(k + 1) % 3])))) for f in F for k in range(3))
        if split:
            T = cKDTree(V); F = np.vstack([T.query(v)[1][f] for v, f in m.shells])
        th = np.cos(np.radians(angle)); self.margin = np.inf
        N = np.cross(V[F[:, 1]] - V[F[:, 0]], V[F[:, 2]] - V[F[:, 0]]); N /= np.linalg.norm(N, axis=1)[:, None]
        E = {}
        for i, f in enumerate(F):
            for k in range(3):
                a, b = f[k], f[(k + 1) % 3]
                E.setdefault((min(a, b), max(a, b)), []).append((i, a < b))
        sharp = []; self.extra = 0
        for e, fs in E.items():
            if len(fs) != 2: sharp.append(e); self.extra += len(fs) - 1; continue
            d = float(np.dot(N[fs[0][0]], N[fs[1][0]]))
            if fs[0][1] == fs[1][1]: d = -d
            self.margin = min(self.margin, abs(d - th))
            if d < th: sharp.append(e)
        self.edges = sharp
        inc = {}
        for a, b in sharp: inc.setdefault(a, []).append(b); inc.setdefault(b, []).append(a)
        self.corners = []
        for p, nb in inc.items():
            if len(nb) != 2: self.corners.append(p); continue
            u, w = V[p] - V[nb[0]], V[nb[1]] - V[p]
            c = float(np.dot(u, w) / np.linalg.norm(u) / np.linalg.norm(w))
            self.margin = min(self.margin, abs(c - th))
            if c < th: self.corners.append(p)
        self.corners.sort(); self.V = V
        self.valence = dict(own)


# ------------------------------------------------------------------------------------------------- point-to-model distances
def seg_dist(P, A, B):
    """distance of each P to the nearest of the segments (A_i,B_i)"""
    if len(A) == 0: return np.full(len(P), np.inf)
    d = B - A; L2 = (d * d).sum(1)
    out = np.full(len(P), np.inf)
    for s in range(0, len(P), 2000):
        p = P[s:s + 2000, None, :]
        t = np.clip(((p - A) * d).sum(2) / L2, 0, 1)
        out[s:s + 2000] = np.linalg.norm(p - A - t[..., None] * d, axis=2).min(1)
    return out


def tri_dist(P, V, F):
    out = np.full(len(P), np.inf)
    a, b, c = V[F[:, 0]], V[F[:, 1]], V[F[:, 2]]
    n = np.cross(b - a, c - a); nn = n / np.linalg.norm(n, axis=1)[:, None]
    step = max(1, int(3e5 // max(1, len(F))))
    edges = ((a, b), (b, c), (c, a))
    for s in range(0, len(P), step):
        p = P[s:s + step, None, :]
        h = ((p - a) * nn).sum(2)
        ins = np.ones(h.shape, bool)
        best = np.full(h.shape, np.inf)
        for x, y in edges:
            ins &= (np.cross(y - x, p - x) * nn).sum(2) >= 0
            d = y - x; t = np.clip(((p - x) * d).sum(2) / (d * d).sum(1), 0, 1)
            best = np.minimum(best, np.linalg.norm(p - x - t[..., None] * d, axis=2))
        out[s:s + step] = np.where(ins, np.abs(h), best).min(1)
    return out


def sample_surface(m, n, rng):
    V, F = m.V, m.F
    ar = np.linalg.norm(np.cross(V[F[:, 1]] - V[F[:, 0]], V[F[:, 2]] - V[F[:, 0]]), axis=1)
    k = rng.choice(len(F), n, p=ar / ar.sum()); u = rng.uniform(size=(n, 2))
    u = np.where(u.sum(1, keepdims=True) > 1, 1 - u, u)
    return V[F[k, 0]] + u[:, :1] * (V[F[k, 1]] - V[F[k, 0]]) + u[:, 1:] * (V[F[k, 2]] - V[F[k, 0]])


def cover(P, C, r, k=None):
    """min over spheres of |P-C|/r, exact (searches all spheres that could cover by radius classes)"""
    out = np.full(len(P), np.inf)
    if len(C) == 0: return out
    if len(C) <= 400:
        for i in range(0, len(P), 4000):
            out[i:i + 4000] = (np.linalg.norm(P[i:i + 4000, None] - C[None], axis=2) / r).min(1)
        return out
    cls = np.floor(np.log2(r / r.min())).astype(int)
    for c in np.unique(cls):
        j = np.where(cls == c)[0]; T = cKDTree(C[j]); q, ii = T.query(P, k=min(len(j), 12))
        q, ii = q.reshape(len(P), -1), ii.reshape(len(P), -1)
        out = np.minimum(out, (q / r[j][ii]).min(1))
    return out


# ------------------------------------------------------------------------------------------------------------ oracles
def o_spheres(R, m, sizing=None):
    """P06: on the feature, 0 < r <= R_MAX, sizing file respected, Lipschitz between overlapping spheres of a kind."""
    mod, f, L = R.m, R.feat, R.L
    lip = float(R.cfg.get("LIP_CONST", 0.1)); rmax = float(R.cfg.get("R_MAX", 1.8e308))
    V = mod.V
    S = R.spheres
    if len(S) == 0: yield "no-spheres", "no sphere was written"; return
    if not np.isfinite(S).all(): yield "nan", "a sphere has a non-finite coordinate or radius"; return
    if (S[:, 3] <= 0).any(): yield "radius<=0", "sphere %s has a non-positive radius" % S[S[:, 3] <= 0][0]
    if (S[:, 3] > rmax * (1 + 1e-12)).any():
        i = int(S[:, 3].argmax()); yield "rmax", "sphere %s exceeds R_MAX=%g" % (S[i], rmax)
    C = R.corner
    if len(C):
        d = np.linalg.norm(C[:, None, :3] - V[None, f.corners], axis=2).min(1) if f.corners else np.full(len(C), np.inf)
        m["corner_dist"] = float(d.max() / L)
        if (d > 1e-9 * L).any(): yield "corner-off", "corner sphere %s is not centred at a sharp corner (distance %g)" % (C[d.argmax(), :4], d.max())
        if len(C) > len(f.corners): yield "corner-many", "%d corner spheres for %d sharp corners" % (len(C), len(f.corners))
    E = R.edge
    if len(E):
        e = np.array(f.edges).reshape(-1, 2); d = seg_dist(E[:, :3], V[e[:, 0]], V[e[:, 1]])
        m["edge_dist"] = float(d.max() / L)
        if (d > 1e-9 * L).any(): yield "edge-off", "edge sphere %s is not centred on a sharp edge (distance %g)" % (E[d.argmax(), :4], d.max())
    if len(R.surf):
        d = tri_dist(R.surf[:, :3], V, mod.F)
        m["surf_dist"] = float(d.max() / L)
        if (d > 1e-9 * L).any(): yield "surf-off", "surface sphere %s is not centred on the surface (distance %g)" % (R.surf[d.argmax(), :4], d.max())
    if sizing is not None:
        ex = size_excess(S, sizing, lip); m["sizing_excess"] = float(ex.max() / L)
        if (ex > 1e-9 * L).any(): yield "sizing", "sphere %s exceeds the sizing file by %g" % (S[ex.argmax()], ex.max())
    for nm, X in (("surface", R.surf), ("edge", R.edge), ("corner", R.corner)):
        if len(X) < 2: continue
        T = cKDTree(X[:, :3]); pr = T.query_pairs(2 * X[:, 3].max(), output_type="ndarray")
        if len(pr) == 0: continue
        d = np.linalg.norm(X[pr[:, 0], :3] - X[pr[:, 1], :3], axis=1)
        ov = d < (X[pr[:, 0], 3] + X[pr[:, 1], 3]) * (1 - 1e-9)
        ex = np.where(ov, np.abs(X[pr[:, 0], 3] - X[pr[:, 1], 3]) - lip * d, -np.inf)
        m["lip_" + nm] = float(ex.max() / L); m["lip_pairs"] = m.get("lip_pairs", 0) + int(ov.sum())
        if ex.max() > 1e-9 * L:
            i, j = pr[ex.argmax()]
            yield "lipschitz-" + nm, "overlapping %s spheres %s and %s break the Lipschitz bound %g by %g" % (nm, X[i, :4], X[j, :4], lip, ex.max())


def size_excess(S, sizing, lip):
    """S: x y z r; sizing: x y z s. The prescribed size at x is that of the nearest sizing point."""
    T = cKDTree(sizing[:, :3]); d, j = T.query(S[:, :3])
    return S[:, 3] - (sizing[j, 3] + lip * d)


def o_cover(R, m, rng, n=20000):
    """P07"""
    mod, f = R.m, R.feat
    S = R.spheres
    Q = np.vstack([sample_surface(mod, n, rng), mod.V[np.unique(mod.F)]])
    cov = cover(Q, S[:, :3], S[:, 3]); m["surface_cover_max"] = float(cov.max()); m["surface_points"] = len(Q)
    if cov.max() >= 1 - 1e-9:
        i = cov.argmax(); yield "surface-uncovered", "surface point %s lies inside no sphere (closest at %g radii)" % (Q[i], cov[i])
    if f.edges:
        e = np.array(f.edges); k = rng.integers(len(e), size=n // 4); t = rng.uniform(size=(len(k), 1))
        P = mod.V[e[k, 0]] + t * (mod.V[e[k, 1]] - mod.V[e[k, 0]])
        X = np.vstack([x[:, :4] for x in (R.edge, R.corner) if len(x)] or [np.zeros((0, 4))])
        cov = cover(P, X[:, :3], X[:, 3]); m["edge_cover_max"] = float(cov.max()); m["edge_points"] = len(P)
        if not cov.max() < 1 - 1e-9:
            i = cov.argmax(); yield "edge-uncovered", "sharp edge point %s lies inside no edge or corner sphere (closest at %g radii)" % (P[i], cov[i])
        deep = np.minimum(cover(P, R.edge[:, :3], np.sqrt(.75) * R.edge[:, 3]) if len(R.edge) else np.inf, cover(P, R.corner[:, :3], R.corner[:, 3]) if len(R.corner) else np.inf); m["edge_deep_cover_max"] = float(deep.max())
        if deep.max() > 1 + 1e-4: yield "edge-shallow", "sharp edge point %s lies neither in a corner sphere nor within sqrt(3/4) of the radius of an edge sphere (%g of that)" % (P[deep.argmax()], deep.max())
    deep = np.full(len(Q), np.inf)
    for X, b in ((R.surf, np.sqrt(.84)), (R.edge, 1), (R.corner, 1)):
        if len(X): deep = np.minimum(deep, cover(Q, X[:, :3], b * X[:, 3]))
    m["surface_deep_cover_max"] = float(deep.max())
    if deep.max() > 1 + 1e-4: yield "surface-shallow", "surface point %s lies neither in an edge or corner sphere nor within sqrt(0.84) of the radius of a surface sphere (%g of that)" % (Q[deep.argmax()], deep.max())
    for p in f.corners:
        d = np.linalg.norm(R.corner[:, :3] - mod.V[p], axis=1) if len(R.corner) else np.array([np.inf])
        if d.min() > 1e-9 * R.L: yield "corner-missing", "sharp corner %s has no sphere" % mod.V[p]
    if len(R.corner) != len(f.corners): yield "corner-count", "%d corner spheres for %d sharp corners" % (len(R.corner), len(f.corners))
    for nm, X, bound in (("surface", R.surf, 0.8), ("edge", R.edge, 0.8), ("corner", R.corner, 2 * (1 - 1e-9))):
        if len(X) < 2: continue
        T = cKDTree(X[:, :3]); d, j = T.query(X[:, :3], k=min(12, len(X))); d, j = d[:, 1:], j[:, 1:]; r = X[:, 3]
        q = d / np.minimum(r[:, None], r[j]); m["spacing_" + nm] = float(q.min()); w = d / np.maximum(r[:, None], r[j]); m["spacing_w_" + nm] = float(w.min())
        # a centre is accepted only outside sqrt(1 - 0.4^2) = 0.917 (surface) or sqrt(1 - 0.5^2) = 0.866 (edge) of the radius
        # of every earlier sphere, and radii only shrink afterwards; corner spheres do not overlap
        # nor does a new sphere reach over an earlier centre further than that, unless both come from one parallel batch
        far = {"surface": .9 if R.cfg.get("NUM_THREADS", "1") == "1" else .6, "edge": .85}.get(nm, 0)
        if w.min() < far: i = w.min(1).argmin(); yield "engulfed-" + nm, "%s sphere %s and another one: the distance of the centres is %g of the larger radius" % (nm, X[i], w.min())
        if q.min() < bound:
            i = q.min(1).argmin(); yield "crowded-" + nm, "%s sphere %s has its centre deep inside another one (distance %g of the smaller radius)" % (nm, X[i], q.min())
    # a centre of one kind lies outside all spheres of the kinds it depends on
    for nm, X, Y in (("surface", R.surf, R.edge), ("surface", R.surf, R.corner), ("edge", R.edge, R.corner)):
        if len(X) == 0 or len(Y) == 0: continue
        c = cover(X[:, :3], Y[:, :3], Y[:, 3]); m["spacing_cross"] = min(float(c.min()), m.get("spacing_cross", 9.))
        if c.min() < 1 - 1e-6: yield "crowded-cross", "%s sphere %s has its centre inside an edge or corner sphere (%g of its radius)" % (nm, X[c.argmin()], c.min())


def o_surface(R, m, rng):
    """P08"""
    V, F = R.smesh; mod, f, L = R.m, R.feat, R.L
    if len(F) == 0: yield "empty", "surface_mesh.obj has no triangle"; return
    if F.min() < 0 or F.max() >= len(V): yield "index", "a surface triangle refers to a vertex that does not exist"; return
    S = R.spheres
    if len(V) != len(S) or np.abs(V - S[:, :3]).max() > 1e-12 * L: yield "vertices", "surface vertices are not the sphere centres"; return
    if (F[:, 0] == F[:, 1]).any() or (F[:, 1] == F[:, 2]).any() or (F[:, 2] == F[:, 0]).any(): yield "degenerate", "a surface triangle repeats a vertex"; return
    key = Counter(tuple(sorted(t)) for t in F.tolist())
    if max(key.values()) > 1: yield "duplicate", "surface triangle %s occurs twice" % (max(key, key=key.get),)
    un = np.setdiff1d(np.arange(len(V)), F)
    if len(un): yield "unused", "sphere %s is no vertex of the surface" % S[un[0]]
    a, b, c = V[F[:, 0]], V[F[:, 1]], V[F[:, 2]]; ar = np.linalg.norm(np.cross(b - a, c - a), axis=1) / 2
    lmax = np.max([np.linalg.norm(a - b, axis=1), np.linalg.norm(b - c, axis=1), np.linalg.norm(c - a, axis=1)], axis=0)
    m["min_triangle_quality"] = float((2 * ar / lmax ** 2).min())
    if (2 * ar / lmax ** 2).min() < 1e-3: yield "sliver", "surface triangle %s is degenerate" % F[(2 * ar / lmax ** 2).argmin()]
    E = Counter(tuple(sorted((t[k], t[(k + 1) % 3]))) for t in F.tolist() for k in range(3))
    m["surface_edges"] = len(E); m["surface_triangles"] = len(F)
    # expected valence: that of the model edge the segment lies on, otherwise 2
    nm = [e for e, v in f.valence.items() if v != 2]
    exp = {}
    val = np.array(list(E.values())); ends = np.array(list(E.keys()))
    want = np.full(len(val), 2)
    if nm:
        A, B = mod.V[[e[0] for e in nm]], mod.V[[e[1] for e in nm]]
        for e, x, y in zip(nm, A, B):
            on = lambda P: seg_dist(P, x[None], y[None]) < 1e-7 * L
            P, Q = V[ends[:, 0]], V[ends[:, 1]]
            want[on(P) & on(Q)] = f.valence[e]
    bad = np.where(val != want)[0]
    if len(bad):
        i = bad[0]; yield "valence", "surface edge %s-%s has %d triangles instead of %d (%d such edges)" % (V[ends[i, 0]], V[ends[i, 1]], val[i], want[i], len(bad))
    chi, chi0 = len(np.unique(F)) - len(E) + len(F), len(np.unique(mod.F)) - len(f.valence) + len(mod.F)
    m["euler"] = int(chi)
    if chi != chi0: yield "euler", "Euler characteristic %d, input %d" % (chi, chi0)
    comp = lambda F, n: _components(F, n)
    if comp(F, len(V)) != comp(mod.F, len(mod.V)): yield "components", "surface has %d components, input %d" % (comp(F, len(V)), comp(mod.F, len(mod.V)))
    # folded: neighbouring triangles across a 2-valent edge must not overlap (dihedral near 0)
    n = np.cross(b - a, c - a); n /= np.linalg.norm(n, axis=1)[:, None]
    own = {}
    for i, t in enumerate(F.tolist()):
        for k in range(3): own.setdefault(tuple(sorted((t[k], t[(k + 1) % 3]))), []).append((i, t[(k + 2) % 3]))
    pr = [(o[0], o[1], e) for e, o in own.items() if len(o) == 2]
    i = np.array([[p[0][0], p[1][0], p[0][1], p[1][1], p[2][0], p[2][1]] for p in pr])
    if len(i):
        u, w = V[i[:, 2]] - V[i[:, 4]], V[i[:, 3]] - V[i[:, 4]]; e = V[i[:, 5]] - V[i[:, 4]]; e /= np.linalg.norm(e, axis=1)[:, None]
        u = u - (u * e).sum(1)[:, None] * e; w = w - (w * e).sum(1)[:, None] * e
        cs = (u * w).sum(1) / np.linalg.norm(u, axis=1) / np.linalg.norm(w, axis=1)
        m["max_fold_cos"] = float(cs.max())
        if cs.max() > np.cos(np.radians(3)): yield "folded", "two surface triangles fold onto each other at edge %s-%s" % (V[i[cs.argmax(), 4]], V[i[cs.argmax(), 5]])
    d = tri_dist(V, mod.V, mod.F)
    if d.max() > 1e-9 * L: yield "off-surface", "surface vertex %s is %g off the input surface" % (V[d.argmax()], d.max())
    # sharp edges reproduced: consecutive edge/corner spheres joined along the feature -> total length
    if f.edges:
        e = np.array(f.edges); tot = np.linalg.norm(mod.V[e[:, 0]] - mod.V[e[:, 1]], axis=1).sum()
        kind = R.kind; fe = (kind[ends[:, 0]] > 0) & (kind[ends[:, 1]] > 0)
        # segments whose midpoint lies on a sharp edge
        P, Q = V[ends[fe, 0]], V[ends[fe, 1]]
        mid = (P + Q) / 2
        on = seg_dist(mid, mod.V[e[:, 0]], mod.V[e[:, 1]]) < 1e-7 * L
        got = np.linalg.norm(P - Q, axis=1)[on].sum()
        m["feature_length_err"] = float(abs(got - tot) / tot)
        if planar(mod, R.cfg) and abs(got - tot) > 1e-7 * tot: yield "feature-length", "surface edges along sharp features have length %.12g, the input's %.12g" % (got, tot)
    if planar(mod, R.cfg):
        A0 = np.linalg.norm(np.cross(mod.V[mod.F[:, 1]] - mod.V[mod.F[:, 0]], mod.V[mod.F[:, 2]] - mod.V[mod.F[:, 0]]), axis=1).sum() / 2
        m["area_err"] = float(abs(ar.sum() - A0) / A0); m["area_checked"] = 1
        if abs(ar.sum() - A0) > 1e-8 * A0: yield "area", "surface area %.12g, input %.12g" % (ar.sum(), A0)


def planar(mod, cfg):
    """every smooth (non-sharp) model edge lies between coplanar faces: then the surface is reproduced exactly"""
    k = "_planar_%s" % cfg.get("VC_ANGLE", 20)
    if hasattr(mod, k): return getattr(mod, k)
    f = Features(mod, float(cfg.get("VC_ANGLE", 20))); s = set(f.edges)
    V, F = mod.V, mod.F
    N = np.cross(V[F[:, 1]] - V[F[:, 0]], V[F[:, 2]] - V[F[:, 0]]); N /= np.linalg.norm(N, axis=1)[:, None]
    E = {}
    for i, t in enumerate(F):
        for j in range(3): E.setdefault((min(t[j], t[(j + 1) % 3]), max(t[j], t[(j + 1) % 3])), []).append(i)
    r = all(e in s or abs(abs(np.dot(N[i[0]], N[i[1]])) - 1) < 1e-9 for e, i in E.items())
    # sharp edges turning without a corner are not reproduced exactly either
    inc = {}
    for a, b in f.edges: inc.setdefault(a, []).append(b); inc.setdefault(b, []).append(a)
    cs = set(f.corners)
    for p, nb in inc.items():
        if p in cs or len(nb) != 2: continue
        u, w = V[p] - V[nb[0]], V[nb[1]] - V[p]
        if np.dot(u, w) < (1 - 1e-9) * np.linalg.norm(u) * np.linalg.norm(w): r = False
    setattr(mod, k, r); return r


def _components(F, n):
    from scipy.sparse import coo_matrix
    from scipy.sparse.csgraph import connected_components
    i = np.r_[F[:, 0], F[:, 1]]; j = np.r_[F[:, 1], F[:, 2]]
    _, lab = connected_components(coo_matrix((np.ones(len(i)), (i, j)), shape=(n, n)), directed=False)
    return len(np.unique(lab[np.unique(F)]))


def o_pairs(R, m):
    """P09"""
    V, F = R.smesh; n = R.nf; s = R.seeds; L = R.L
    if len(s) < 2 * n: yield "count", "%d seeds for %d surface triangles" % (len(s), n); return
    if not np.isfinite(s).all(): yield "nan", "a seed has a non-finite coordinate"; return
    up, lo = s[:n, :3], s[n:2 * n, :3]
    a, b, c = V[F[:, 0]], V[F[:, 1]], V[F[:, 2]]; nn = np.cross(b - a, c - a); nn /= np.linalg.norm(nn, axis=1)[:, None]
    mid = (up + lo) / 2; off = np.abs(((mid - a) * nn).sum(1)); m["pair_plane_err"] = float(off.max() / L)
    if off.max() > 1e-9 * L: yield "pair-plane", "the two seeds of triangle %d are not mirror images: midpoint %g off its plane" % (off.argmax(), off.max())
    df = up - lo; gap = np.linalg.norm(df, axis=1); m["pair_gap_min"] = float(gap.min() / L)
    if gap.min() < 1e-9 * L: yield "pair-coincide", "the two seeds of triangle %d coincide" % gap.argmin()
    par = np.linalg.norm(np.cross(df, nn), axis=1); m["pair_parallel_err"] = float(par.max() / L)
    if par.max() > 1e-9 * L: yield "pair-direction", "the two seeds of triangle %d are not mirror images across its plane" % par.argmax()
    rl, rh = R.radii; S = R.spheres
    if len(S) == len(V):
        e = np.maximum(np.abs(rl - S[:, 3]), np.abs(rh - S[:, 3]))[rh > 0]; m["on_sphere_err"] = float(e.max() / L)
        if e.max() > 1e-9 * L: yield "off-sphere", "a surface seed of sphere %s lies %g off that sphere" % (S[np.where(rh > 0)[0][e.argmax()]], e.max())
        q, j = R.tree.query(S[:, :3]); dep = (S[:, 3] - q) / S[:, 3]
        m["seed_depth_in_sphere"] = float(dep.max()); m["spheres"] = len(S); m["pairs"] = n
        if dep.max() > 1e-7: i = dep.argmax(); yield "seed-in-sphere", "seed %s lies inside sphere %s (depth %g of its radius)" % (s[j[i]], S[i], dep[i])
    yield from seed_size(R, m)
    if n > 1 and len(S) == len(V):
        rm = S[:, 3][F].min(1)
        for nm, X in (("upper", up), ("lower", lo)):
            q = cKDTree(X).query(X, k=2)[0][:, 1] / rm; m["same_side_gap_min"] = min(float(q.min()), m.get("same_side_gap_min", 9.))
            if q.min() < 0.0099: yield "crowded-seeds", "two %s seeds are closer than 1/100 of the radius of their spheres (%g) at %s" % (nm, q.min(), X[q.argmin()])
    k = R.tree.query(s[:, :3], k=2)[0][:, 1]
    if k.min() < 1e-9 * L: yield "duplicate-seed", "two seeds coincide at %s" % s[k.argmin(), :3]


def seed_size(R, m):
    """a surface seed takes the radius of the smallest of its three spheres; later smoothing only reduces it"""
    V, F = R.smesh; n = R.nf; S = R.spheres
    if len(S) != len(V) or len(R.seeds) < 2 * n: return
    q = R.seeds[:2 * n, 3] / np.tile(S[:, 3][F].min(1), 2); m["surface_seed_size_max"] = float(q.max())
    if q.max() > 1 + 1e-9: yield "seed-oversize", "surface seed %s is larger than the smallest of the three spheres it lies on (%g of its radius)" % (R.seeds[q.argmax()], q.max())


def o_regions(R, m, vcg=True):
    """P10"""
    s, reg = R.seeds, R.reg
    ids = s[:, 4]
    if (ids < 0).any() or (ids != np.round(ids)).any(): yield "id", "a region id is not a natural number"; return
    ids = ids.astype(int)
    tab = {}
    for i, r in zip(ids, reg): tab.setdefault(i, Counter())[r] += 1
    m["seed_region_ids"] = len(tab); m["true_regions"] = len(R.m.region_def); m["seeds_classified"] = len(s)
    for i, c in sorted(tab.items()):
        if i == 0 and set(c) != {0}:
            k = np.where((ids == 0) & (reg != 0))[0][0]; yield "inside-marked-outside", "seed %s lies in region %d of the model but carries region 0 (%d such seeds)" % (s[k], reg[k], sum(v for q, v in c.items() if q))
        elif i != 0 and 0 in c:
            k = np.where((ids == i) & (reg == 0))[0][0]; yield "outside-marked-inside", "seed %s lies outside the model but carries region %d (%d such seeds)" % (s[k], i, c[0])
        elif len(c) > 1: yield "regions-mixed", "region id %d is given to seeds of different regions %s" % (i, dict(c))
    miss = set(range(len(R.m.region_def) + 1)) - set(reg.tolist())
    if miss: yield "region-empty", "no seed lies in region(s) %s" % sorted(miss)
    if not vcg or not os.path.exists(R.path("mesh.vcg")): return
    C, K, _ = R.vcg
    cr = R.m.classify(C[:, 1:4]); ci = C[:, 5].astype(int)
    a = {}; b = {}
    for x, y in zip(ci, cr): a.setdefault(x, set()).add(int(y)); b.setdefault(int(y), set()).add(int(x))
    m["cells_classified"] = len(C)
    for x, ys in a.items():
        if len(ys) > 1: yield "cell-mixed", "cells of different model regions %s carry one region id %d in mesh.vcg" % (sorted(ys), x)
        if 0 in ys: yield "cell-outside", "cells outside the model were written with region id %d" % x
        if x == 0: yield "cell-zero", "cells with region id 0 were written to mesh.vcg"
    for y, xs in b.items():
        if len(xs) > 1: yield "cell-split", "one model region (%d) carries several ids %s in mesh.vcg" % (y, sorted(xs))
    if set(b) != set(range(1, len(R.m.region_def) + 1)): yield "cell-region-missing", "model regions with cells: %s of %d" % (sorted(b), len(R.m.region_def))
    n_in = int((ids != 0).sum())
    if len(C) != n_in: yield "cell-count", "%d cells for %d inside seeds" % (len(C), n_in)


def o_interior(R, m, rng, sizing=None, extra=0, n=12000, cover_bound=None):
    """P11; `extra`: number of imposed seeds placed after the surface seeds"""
    s = R.seeds; n0 = 2 * R.nf; X, S = s[:, :3], s[:, 3]; L = R.L
    lip = float(R.cfg.get("LIP_CONST", 0.1)); rmax = float(R.cfg.get("R_MAX", 1.8e308))
    I = np.arange(n0, len(s)); m["interior_seeds"] = len(I)
    if len(I):
        o = R.reg[I] == 0
        if o.any(): yield "interior-outside", "interior seed %s lies outside the model" % s[I[o][0]]
    yield from seed_size(R, m)
    if (S <= 0).any(): yield "size<=0", "seed %s has a non-positive size" % s[(S <= 0).argmax()]
    if (S > rmax * (1 + 1e-9)).any(): yield "size-rmax", "seed %s exceeds R_MAX=%g" % (s[S.argmax()], rmax)
    if len(I):
        # separation
        pr = R.tree.query_pairs(S.max() * (1 - 1e-12), output_type="ndarray")
        pr = pr[pr.max(1) >= n0 + extra]
        if len(pr):
            old, new = pr.min(1), pr.max(1); d = np.linalg.norm(X[old] - X[new], axis=1); q = d / S[old]
            m["separation_min"] = float(q.min()); m["separation_pairs"] = len(pr)
            if q.min() < 1 - 1e-5: i = q.argmin(); yield "separation", "interior seed %s lies inside the earlier seed %s (distance %g of its size)" % (s[new[i]], s[old[i]], q[i])
    # Lipschitz
    pr = R.tree.query_pairs(2 * S.max(), output_type="ndarray") if len(S) < 6000 else R.tree.query_pairs(S.max(), output_type="ndarray")
    if len(pr):
        d = np.linalg.norm(X[pr[:, 0]] - X[pr[:, 1]], axis=1); big = np.maximum(S[pr[:, 0]], S[pr[:, 1]]); sm = np.minimum(S[pr[:, 0]], S[pr[:, 1]])
        ex = np.where(d <= big, big - sm - lip * d, -np.inf); m["lip_excess"] = float(ex.max() / L); m["lip_pairs"] = int((d <= big).sum())
        if ex.max() > 1e-9 * L: i = pr[ex.argmax()]; yield "lipschitz", "seeds %s and %s break the Lipschitz bound by %g" % (s[i[0]], s[i[1]], ex.max())
    if sizing is not None:
        ex = size_excess(s[n0:, :4], sizing, lip); m["sizing_excess"] = float(ex.max() / L) if len(ex) else 0.0
        if len(ex) and ex.max() > 1e-9 * L: yield "sizing", "seed %s exceeds the sizing file by %g" % (s[n0 + ex.argmax()], ex.max())
    # no void
    P = rng.uniform(R.m.V.min(0), R.m.V.max(0), (n, 3)); P = P[R.m.classify(P) > 0]
    cv = np.minimum(cover(P, X, S), cover(P, R.spheres[:, :3], R.spheres[:, 3]))
    m["void_max"] = float(cv.max()); m["interior_points"] = len(P)
    if cover_bound and cv.max() > cover_bound: yield "void", "point %s is %g local sizes away from every seed and sphere" % (P[cv.argmax()], cv.max())


def o_conserve(R, m):
    """P13"""
    C, K, rest = R.vcg; L = R.L; mod = R.m
    if rest: yield "trailing", "mesh.vcg has trailing content"
    n = len(C)
    if n == 0: yield "no-cells", "mesh.vcg has no cells"; return
    if (C[:, 0] != np.arange(1, n + 1)).any(): yield "ids", "cell ids are not 1..n"
    i, j = K[:, 0].astype(int) - 1, K[:, 1].astype(int) - 1
    if min(i.min(), j.min()) < 0 or max(i.max(), j.max()) >= n: yield "index", "a connection refers to a cell that does not exist"; return
    if (C[:, 4] <= 0).any(): yield "volume<=0", "cell %d has volume %g" % (C[C[:, 4].argmin(), 0], C[:, 4].min())
    inner = i != j
    pr = Counter(zip(np.minimum(i, j)[inner].tolist(), np.maximum(i, j)[inner].tolist()))
    if pr and max(pr.values()) > 1: yield "duplicate", "cells %s are connected twice" % (max(pr, key=pr.get),)
    mc, A, N = K[:, 2:5], K[:, 5], K[:, 6:9]
    if (A < 0).any(): yield "area<0", "a connection has a negative area"
    big = A > 1e-9 * L * L
    ln = np.linalg.norm(N, axis=1)
    if (np.abs(ln[big] - 1) > 1e-6).any(): yield "normal", "a connection's normal is not a unit vector"
    # normal from first to second
    d = C[j, 1:4] - C[i, 1:4]; dn = np.linalg.norm(d, axis=1)
    w = (d * N).sum(1)[inner & big] / dn[inner & big]
    if len(w) and w.min() < 1 - 1e-5: yield "normal-direction", "a connection's normal does not point from its first to its second cell (cos %g)" % w.min()
    # closedness and volume by the divergence theorem
    s = np.zeros((n, 3)); v = np.zeros(n); area = np.zeros(n)
    NA = N * A[:, None]
    np.add.at(s, i, NA); np.add.at(area, i, A); np.add.at(v, i, ((mc - C[i, 1:4]) * NA).sum(1) / 3)
    k = np.where(inner)[0]
    np.add.at(s, j[k], -NA[k]); np.add.at(area, j[k], A[k]); np.add.at(v, j[k], -((mc[k] - C[j[k], 1:4]) * NA[k]).sum(1) / 3)
    cl = np.linalg.norm(s, axis=1) / area; m["closedness"] = float(cl.max()); m["cells"] = n; m["connections"] = len(K)
    if cl.max() > 1e-5: yield "open-cell", "cell %d is not closed: its outward face areas sum to %g of its surface" % (C[cl.argmax(), 0], cl.max())
    ve = np.abs(v - C[:, 4]) / C[:, 4]; m["divergence_volume_err"] = float(ve.max())
    if ve.max() > 1e-5: yield "cell-volume", "cell %d: volume %g written, %g by its faces" % (C[ve.argmax(), 0], C[ve.argmax(), 4], v[ve.argmax()])
    tv = mod.region_volumes(); reg = mod.classify(C[:, 1:4])
    if planar(mod, R.cfg):
        for r, t in enumerate(tv):
            g = C[reg == r + 1, 4].sum(); m["region_volume_err"] = max(m.get("region_volume_err", 0.0), abs(g - t) / t)
            if abs(g - t) > 1e-6 * t: yield "region-volume", "cells of region %d add up to %.12g, its volume is %.12g" % (r + 1, g, t)
    else:
        for r, t in enumerate(tv):
            g = C[reg == r + 1, 4].sum(); m["region_volume_err_curved"] = max(m.get("region_volume_err_curved", 0.0), abs(g - t) / t)
            if abs(g - t) > 0.15 * t: yield "region-volume", "cells of region %d add up to %.12g, its volume is %.12g" % (r + 1, g, t)
    # conforming interface: boundary and inter-region faces lie on the reconstructed surface and add up to its area
    SV, SF = R.smesh
    ifc = (~inner) | (C[i, 5] != C[j, 5])
    sa = np.linalg.norm(np.cross(SV[SF[:, 1]] - SV[SF[:, 0]], SV[SF[:, 2]] - SV[SF[:, 0]]), axis=1).sum() / 2
    ga = A[ifc].sum(); m["interface_area_err"] = float(abs(ga - sa) / sa); m["interface_faces"] = int(ifc.sum())
    if abs(ga - sa) > 1e-6 * sa: yield "interface-area", "boundary and interface faces add up to %.10g, the reconstructed surface to %.10g" % (ga, sa)
    # every triangle of the surface is the facet between its two seeds
    n = R.nf; sd = R.seeds
    if len(sd) >= 2 * n and n:
        pm = (sd[:n, :3] + sd[n:2 * n, :3]) / 2
        ta = np.linalg.norm(np.cross(SV[SF[:, 1]] - SV[SF[:, 0]], SV[SF[:, 2]] - SV[SF[:, 0]]), axis=1) / 2
        q = np.where(ifc)[0]; T = cKDTree(mc[q]) if len(q) else None
        if T is None: yield "interface-none", "no boundary face was written"; return
        dd, kk = T.query(pm, k=min(4, len(q))); dd, kk = dd.reshape(n, -1), kk.reshape(n, -1)
        er = np.where(dd < 1e-9 * L, np.abs(A[q[kk]] - ta[:, None]), np.inf).min(1) / ta
        m["interface_triangle_err"] = float(er[np.isfinite(er)].max()) if np.isfinite(er).any() else 0.0
        m["interface_triangles"] = n
        if (er > 1e-6).any():
            t = int(er.argmax()); yield "interface-triangle", "surface triangle %d (area %g) is not a facet of the mesh (%d such triangles)" % (t, ta[t], int((er > 1e-6).sum()))


# ------------------------------------------------------------------------------- independent Voronoi diagram (P12, P14)
def voronoi_reference(X, inside):
    """Facets of the Voronoi diagram of X that touch an inside seed: dict (i,j)->(area, centroid); volume per inside seed.
    Far guard points bound all cells; `bounded` marks seeds whose cell does not touch a guard."""
    from scipy.spatial import Voronoi
    c = X.mean(0); r = np.linalg.norm(X - c, axis=1).max()
    from itertools import product
    g = np.array([p for p in product((-1, 0, 1), repeat=3) if any(p)], float)
    g = c + g / np.linalg.norm(g, axis=1)[:, None] * 20 * r
    vor = Voronoi(np.vstack([X, g]))
    n = len(X); fac = {}; unb = set()
    for (p, q), rv in zip(vor.ridge_points.tolist(), vor.ridge_vertices):
        if p >= n and q >= n: continue
        if p >= n or q >= n:
            unb.add(min(p, q)); continue
        if not (inside[p] or inside[q]): continue
        if -1 in rv: unb.add(p); unb.add(q); continue
        V = vor.vertices[rv]
        o = V.mean(0); nrm = X[q] - X[p]; nrm = nrm / np.linalg.norm(nrm)
        u = np.linalg.svd(V - o)[2][0] if len(V) > 2 else None
        a = np.abs(nrm).argmin(); e = np.zeros(3); e[a] = 1
        u = np.cross(nrm, e); u /= np.linalg.norm(u); w = np.cross(nrm, u)
        xy = np.c_[(V - o) @ u, (V - o) @ w]
        k = np.argsort(np.arctan2(xy[:, 1], xy[:, 0])); xy = xy[k]
        x, y = xy[:, 0], xy[:, 1]; x2, y2 = np.roll(x, -1), np.roll(y, -1); cr = x * y2 - x2 * y; A = cr.sum() / 2
        if A > 0:
            cx, cy = ((x + x2) * cr).sum() / (6 * A), ((y + y2) * cr).sum() / (6 * A)
        else: cx = cy = 0.0
        fac[(min(p, q), max(p, q))] = (A, o + cx * u + cy * w)
    vol = np.zeros(n)
    for (p, q), (A, cen) in fac.items():
        h = np.linalg.norm(X[p] - X[q]) / 2; v = A * h / 3; vol[p] += v; vol[q] += v
    return fac, vol, unb


def o_voronoi(X, reg, vcg, m, scale, tol=1e-6):
    """cells (in seed order, inside seeds only) and connections of `vcg` against the reference diagram of X.
    reg: region per seed, 0 = outside. Connections of an inside with an outside seed are boundary faces (i==j)."""
    C, K, _ = vcg; inside = np.asarray(reg) != 0
    ix = np.where(inside)[0]
    if len(C) != len(ix): yield "cell-count", "%d cells written for %d meshed seeds" % (len(C), len(ix)); return
    if len(C) == 0: return
    o = (X.min(0) + X.max(0)) / 2; X = X - o; C = np.array(C, float); K = np.array(K, float)  # near the origin, for the sake of the reference
    C[:, 1:4] -= o
    if len(K): K[:, 2:5] -= o
    d = np.abs(C[:, 1:4] - X[ix]).max(); m["centre_err"] = float(d / scale)
    if d > 1e-9 * scale: yield "centre", "cell %d is not centred at its seed (off by %g)" % (np.abs(C[:, 1:4] - X[ix]).max(1).argmax() + 1, d); return
    fac, vol, unb = voronoi_reference(X, inside)
    ok = np.array([i not in unb for i in ix])
    m["cells_compared"] = m.get("cells_compared", 0) + int(ok.sum()); m["unbounded_cells"] = m.get("unbounded_cells", 0) + int((~ok).sum())
    e = np.abs(C[ok, 4] - vol[ix][ok]) / np.maximum(vol[ix][ok], 1e-12 * scale ** 3)
    if len(e):
        m["volume_err"] = max(m.get("volume_err", 0), float(e.max()))
        if e.max() > tol: k = np.where(ok)[0][e.argmax()]; yield "volume", "cell %d (seed %s): volume %.12g, true Voronoi cell %.12g" % (k + 1, X[ix[k]], C[k, 4], vol[ix[k]])
    sz = np.median(np.cbrt(vol[ix][ok])) if ok.any() else scale
    thr = 1e-6 * sz * sz
    back = ix
    i, j = K[:, 0].astype(int) - 1, K[:, 1].astype(int) - 1
    inner = i != j
    got = {}
    for a, b, row in zip(i[inner], j[inner], K[inner]):
        p, q = back[a], back[b]; kk = (min(p, q), max(p, q))
        if kk in got: yield "duplicate", "seeds %d and %d are connected twice" % kk; return
        got[kk] = (row, p)
    bnd = {}
    for a, row in zip(i[~inner], K[~inner]): bnd.setdefault(back[a], []).append(row)
    nb = 0
    for kk, (A, cen) in fac.items():
        p, q = kk
        if p in unb or q in unb: continue
        if inside[p] and inside[q]:
            if kk not in got:
                if A > thr: yield "missing", "neighbouring cells of seeds %d and %d share a facet of area %g but are not connected" % (p, q, A); return
                continue
            row, first = got.pop(kk); nb += 1
            if abs(row[5] - A) > tol * sz * sz: yield "area", "facet between seeds %d and %d: area %.12g, true %.12g" % (p, q, row[5], A); return
            if A > thr:
                cen = (X[p] + X[q]) / 2
                if np.abs(row[2:5] - cen).max() > 1e-9 * scale: yield "position", "facet between seeds %d and %d: connection point %s, midpoint of the seeds %s" % (p, q, row[2:5], cen); return
                other = q if first == p else p; nv = X[other] - X[first]; nv /= np.linalg.norm(nv)
                if np.abs(row[6:9] - nv).max() > 1e-6: yield "normal", "facet between seeds %d and %d: normal %s, true %s (from the first cell to the second)" % (p, q, row[6:9], nv); return
        else:
            s_in, s_out = (p, q) if inside[p] else (q, p)
            if A <= 1e-4 * sz * sz: continue
            rows = bnd.get(s_in, []); cen = (X[p] + X[q]) / 2
            best = min((np.abs(r[2:5] - cen).max() + abs(r[5] - A) / sz for r in rows), default=np.inf); nb += 1
            if best > 1e-6 * sz: yield "boundary", "boundary facet of seed %d towards outside seed %d (area %g) is not written correctly (%d boundary facets written)" % (s_in, s_out, A, len(rows)); return
            r = min(rows, key=lambda r: np.abs(r[2:5] - cen).max()); nv = X[s_out] - X[s_in]; nv /= np.linalg.norm(nv)
            if np.abs(r[6:9] - nv).max() > 1e-6: yield "boundary-normal", "boundary facet of seed %d: normal %s, true outward normal %s" % (s_in, r[6:9], nv); return
    m["facets_compared"] = m.get("facets_compared", 0) + nb
    for (p, q), (row, _) in got.items():
        if p in unb or q in unb: continue
        if row[5] > thr: yield "spurious", "connection between seeds %d and %d (area %g) is no facet of the Voronoi diagram" % (p, q, row[5]); return


# ------------------------------------------------------------------------------------------ two meshes of the same seeds
def o_same_mesh(A, B, back, L, m, tol=1e-9):
    """mesh files A and B: cell k of B must be cell back[k] of A, with the same volume and the same connections. Facets
    whose area vanishes (degenerate vertices, as around every sphere centre) may or may not be listed."""
    CA, KA, _ = A; CB, KB, _ = B; back = np.asarray(back)
    if len(CB) != len(back): yield "cell-count", "%d cells instead of %d" % (len(CB), len(back)); return
    if len(CB) == 0: return
    CA = CA[back]
    d = np.abs(CA[:, 1:4] - CB[:, 1:4]).max(); m["centre_err"] = float(d / L)
    if d > 1e-12 * L: k = np.abs(CA[:, 1:4] - CB[:, 1:4]).max(1).argmax(); yield "centre", "cell %d is at %s instead of %s" % (k + 1, CB[k, 1:4], CA[k, 1:4])
    s = np.median(np.cbrt(np.abs(CA[:, 4]))); e = np.abs(CA[:, 4] - CB[:, 4]) / (np.abs(CA[:, 4]) + 1e-6 * s ** 3); m["volume_rel_err"] = float(e.max())
    if e.max() > tol * 1e2: k = e.argmax(); yield "volume", "cell %d has volume %.15g instead of %.15g" % (k + 1, CB[k, 4], CA[k, 4])
    inv = np.full(int(back.max()) + 1, -1); inv[back] = np.arange(len(back))
    def table(K, ren):
        T = {}
        for r in K:
            i, j = int(r[0]) - 1, int(r[1]) - 1
            if ren is not None: i, j = int(ren[i]), int(ren[j])
            f = 1.0
            if j < i: i, j, f = j, i, -1.0
            T.setdefault((i, j), []).append(np.r_[r[2:6], f * r[6:9]])
        return T
    TA, TB = table(KA, inv), table(KB, None); n = 0; thr = 1e-6 * s * s
    for k in set(TA) | set(TB):
        a, b = [x for x in TA.get(k, []) if x[3] > thr], [x for x in TB.get(k, []) if x[3] > thr]
        if len(a) != len(b):
            if abs(len(a) - len(b)) == 1 and abs(min((x[3] for x in a + b)) - thr) < 1e-3 * thr: continue
            yield "connection", "%d connections between cells %d and %d instead of %d" % (len(b), k[0] + 1, k[1] + 1, len(a)); return
        key = lambda x: tuple(np.round(x[:3] / L, 7)) + tuple(np.round(x[4:], 5))
        for x in a:
            y = min(b, key=lambda z: np.abs(z[:3] - x[:3]).max() / L + np.abs(z[3] - x[3]) / (s * s) + np.abs(z[4:7] - x[4:7]).max()); n += 1
            if np.abs(y[:3] - x[:3]).max() > 1e-12 * L * 10 or np.abs(y[4:7] - x[4:7]).max() > 1e-9 * L / s or abs(y[3] - x[3]) > 1e-7 * s * s + 1e-7 * x[3]:
                yield "connection", "connection of cells %d and %d is %s instead of %s" % (k[0] + 1, k[1] + 1, y, x); return
    m["connections_compared"] = n
