"""Input models: watertight, conforming triangulations whose geometry is known exactly.

Every generator returns Model(V, F, regions) where regions is a list of Region(point, volume, inside) -
`inside(P)` classifies points analytically/through winding numbers of the region's own closed boundary.
"""
import math
import numpy as np

__all__ = ["Model", "make", "NAMES"]


class Model:
    def __init__(self, name, V, F, shells, region_def):
        # shells: list of (V, F) closed, outward oriented triangle meshes
        # region_def: list of (plus, minus): region = inside all `plus` shells, outside all `minus`
        self.name = name
        self.V = np.asarray(V, float)
        self.F = np.asarray(F, int)
        self.shells = shells
        self.region_def = region_def

    def transform(self, R=None, s=1.0, t=(0, 0, 0)):
        R = np.eye(3) if R is None else R
        f = lambda v: (np.asarray(v) @ R.T) * s + np.asarray(t)
        return Model(self.name, f(self.V), self.F, [(f(v), g) for v, g in self.shells], self.region_def)

    def winding(self, k, P):
        return winding(self.shells[k][0], self.shells[k][1], P)

    def classify(self, P):
        """region number (1..n) of each point; 0 = exterior."""
        P = np.atleast_2d(P)
        w = [self.winding(k, P) > 0.5 for k in range(len(self.shells))]
        out = np.zeros(len(P), int)
        for i, (plus, minus) in enumerate(self.region_def):
            m = np.ones(len(P), bool)
            for k in plus: m &= w[k]
            for k in minus: m &= ~w[k]
            out[m] = i + 1
        return out

    def region_volumes(self):
        vol = [shell_volume(*s) for s in self.shells]
        return [sum(vol[k] for k in plus[:1]) - sum(vol[k] for k in minus) for plus, minus in self.region_def]

    def bbox_diag(self):
        return float(np.linalg.norm(self.V.max(0) - self.V.min(0)))

    def write_obj(self, path, fmt="%.16g", rng=None):
        with open(path, "w") as f:
            for v in self.V:
                f.write("v " + " ".join(fmt % c for c in v) + "\n")
            for t in self.F:
                f.write("f %d %d %d\n" % tuple(t + 1))


def shell_volume(V, F):
    a, b, c = V[F[:, 0]], V[F[:, 1]], V[F[:, 2]]
    return float(np.einsum("ij,ij->i", a, np.cross(b, c)).sum() / 6.0)


def winding(V, F, P):
    P = np.atleast_2d(P)
    out = np.zeros(len(P))
    A, B, C = V[F[:, 0]], V[F[:, 1]], V[F[:, 2]]
    step = max(1, int(2e6 // max(1, len(F))))
    for s in range(0, len(P), step):
        p = P[s:s + step, None, :]
        a, b, c = A[None] - p, B[None] - p, C[None] - p
        la, lb, lc = np.linalg.norm(a, axis=2), np.linalg.norm(b, axis=2), np.linalg.norm(c, axis=2)
        num = np.einsum("ijk,ijk->ij", a, np.cross(b, c))
        den = (la * lb * lc + np.einsum("ijk,ijk->ij", a, b) * lc + np.einsum("ijk,ijk->ij", b, c) * la
               + np.einsum("ijk,ijk->ij", c, a) * lb)
        out[s:s + step] = np.arctan2(num, den).sum(1) / (2 * math.pi)
    return out


def hull(P):
    from scipy.spatial import ConvexHull
    P = np.asarray(P, float)
    h = ConvexHull(P)
    F = h.simplices.copy()
    n = h.equations[:, :3]
    for i, f in enumerate(F):
        if np.dot(np.cross(P[f[1]] - P[f[0]], P[f[2]] - P[f[0]]), n[i]) < 0:
            F[i] = f[::-1]
    used = np.unique(F)
    m = -np.ones(len(P), int); m[used] = np.arange(len(used))
    return P[used], m[F]


BOXF = np.array([[0, 2, 1], [0, 3, 2], [4, 5, 6], [4, 6, 7], [0, 1, 5], [0, 5, 4], [1, 2, 6], [1, 6, 5],
                 [2, 3, 7], [2, 7, 6], [3, 0, 4], [3, 4, 7]])


def boxV(lo, hi):
    (x, y, z), (X, Y, Z) = lo, hi
    return np.array([[x, y, z], [X, y, z], [X, Y, z], [x, Y, z], [x, y, Z], [X, y, Z], [X, Y, Z], [x, Y, Z]], float)


def earclip(poly):
    poly = [tuple(p) for p in poly]
    idx = list(range(len(poly)))
    cr = lambda o, a, b: (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])
    tri = []
    while len(idx) > 3:
        best = None
        for k in range(len(idx)):
            i, j, l = idx[k - 1], idx[k], idx[(k + 1) % len(idx)]
            a, b, c = poly[i], poly[j], poly[l]
            if cr(a, b, c) <= 1e-12: continue
            if any(cr(a, b, poly[q]) >= -1e-12 and cr(b, c, poly[q]) >= -1e-12 and cr(c, a, poly[q]) >= -1e-12
                   for q in idx if q not in (i, j, l)): continue
            q = cr(a, b, c) / max(math.dist(a, b), math.dist(b, c), math.dist(c, a)) ** 2
            if best is None or q > best[0]: best = (q, k, (i, j, l))
        tri.append(best[2]); idx.pop(best[1])
    tri.append(tuple(idx))
    return tri


def extrude(poly, z0, z1, n=1):
    """polygon (ccw) x [z0,z1]."""
    m = len(poly)
    V = []
    for k in range(n + 1):
        z = z0 + (z1 - z0) * k / n
        V += [[p[0], p[1], z] for p in poly]
    F = []
    for a, b, c in earclip(poly):
        F.append([a, c, b]); F.append([n * m + a, n * m + b, n * m + c])
    for k in range(n):
        o, q = k * m, (k + 1) * m
        for i in range(m):
            j = (i + 1) % m
            F.append([o + i, o + j, q + j]); F.append([o + i, q + j, q + i])
    return np.array(V, float), np.array(F)


def subdivide(V, F, project=None):
    V = [tuple(v) for v in V]; mid = {}
    def m(a, b):
        k = (min(a, b), max(a, b))
        if k not in mid:
            p = (np.array(V[a]) + np.array(V[b])) / 2
            if project is not None: p = project(p)
            mid[k] = len(V); V.append(tuple(p))
        return mid[k]
    G = []
    for a, b, c in F:
        x, y, z = m(a, b), m(b, c), m(c, a)
        G += [[a, x, z], [x, b, y], [z, y, c], [x, y, z]]
    return np.array(V), np.array(G)


def icosphere(n, r=1.0):
    t = (1 + 5 ** .5) / 2
    P = np.array([[-1, t, 0], [1, t, 0], [-1, -t, 0], [1, -t, 0], [0, -1, t], [0, 1, t], [0, -1, -t], [0, 1, -t],
                  [t, 0, -1], [t, 0, 1], [-t, 0, -1], [-t, 0, 1]], float)
    P /= np.linalg.norm(P[0])
    V, F = hull(P)
    for _ in range(n): V, F = subdivide(V, F, lambda p: p / np.linalg.norm(p))
    return V * r, F


def torus(R, r, n, m):
    V, F = [], []
    for i in range(n):
        for j in range(m):
            a, b = 2 * math.pi * i / n, 2 * math.pi * j / m
            V.append([(R + r * math.cos(b)) * math.cos(a), (R + r * math.cos(b)) * math.sin(a), r * math.sin(b)])
    for i in range(n):
        for j in range(m):
            a, b, c, d = i * m + j, ((i + 1) % n) * m + j, ((i + 1) % n) * m + (j + 1) % m, i * m + (j + 1) % m
            F += [[a, b, c], [a, c, d]]
    return np.array(V), np.array(F)


def cylinder(r, h, n, k=1, fan=True):
    V, F = [], []
    for l in range(k + 1):
        for i in range(n):
            a = 2 * math.pi * i / n
            V.append([r * math.cos(a), r * math.sin(a), h * l / k])
    b = len(V); V += [[0, 0, 0], [0, 0, h]]
    for l in range(k):
        for i in range(n):
            j = (i + 1) % n
            F += [[l * n + i, l * n + j, (l + 1) * n + j], [l * n + i, (l + 1) * n + j, (l + 1) * n + i]]
    for i in range(n):
        j = (i + 1) % n
        F += [[b, j, i], [b + 1, k * n + i, k * n + j]]
    return np.array(V), np.array(F)


def cone(r, h, n):
    V = [[r * math.cos(2 * math.pi * i / n), r * math.sin(2 * math.pi * i / n), 0] for i in range(n)] + [[0, 0, h], [0, 0, 0]]
    F = []
    for i in range(n):
        j = (i + 1) % n
        F += [[i, j, n], [n + 1, j, i]]
    return np.array(V, float), np.array(F)


def one(name, V, F):
    return Model(name, V, F, [(np.asarray(V, float), np.asarray(F))], [([0], [])])


def union(name, shells, region_def, weld=True):
    """Union of shells into one triangle soup; coincident vertices welded, coincident triangles kept once."""
    V, F, idx, seen = [], [], {}, set()
    for sv, sf in shells:
        m = []
        for p in sv:
            k = tuple(np.round(p, 9)) if weld else (len(V),)
            if k not in idx: idx[k] = len(V); V.append(p)
            m.append(idx[k])
        for t in sf:
            g = [m[i] for i in t]; key = tuple(sorted(g))
            if key in seen: continue
            seen.add(key); F.append(g)
    return Model(name, V, F, shells, region_def)


def grid_boxes(name, xs, ys, zs):
    """Stack of boxes sharing faces, one region each."""
    shells = []
    for i in range(len(xs) - 1):
        for j in range(len(ys) - 1):
            for k in range(len(zs) - 1):
                v = boxV((xs[i], ys[j], zs[k]), (xs[i + 1], ys[j + 1], zs[k + 1]))
                shells.append((v, SYM_BOXF))
    return union(name, shells, [([i], []) for i in range(len(shells))])


# a box triangulation whose opposite faces carry the same diagonal, so that neighbouring boxes conform
SYM_BOXF = np.array([[0, 2, 1], [0, 3, 2], [4, 5, 6], [4, 6, 7], [0, 1, 5], [0, 5, 4], [3, 6, 2], [3, 7, 6],
                     [0, 7, 3], [0, 4, 7], [1, 2, 6], [1, 6, 5]])


def _tetra(rng): return one("tetra", *hull([[0, 0, 0], [1, 0, 0], [0.2, 1, 0], [0.3, 0.3, 0.9]]))
def _box(rng): return one("box", boxV((0, 0, 0), (1, 1, 1)), BOXF)
def _slab(rng): return one("slab", boxV((0, 0, 0), (2, 1.5, 0.4)), BOXF)
def _octa(rng): return one("octa", *hull([[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1]]))
def _wedge(rng): return one("wedge", *extrude([(0, 0), (1, 0), (0, 0.8)], 0, 1))
def _hexprism(rng): return one("hexprism", *extrude([(math.cos(a), math.sin(a)) for a in np.arange(6) * math.pi / 3], 0, 0.9))
def _lshape(rng): return one("lshape", *extrude([(0, 0), (2, 0), (2, 1), (1, 1), (1, 2), (0, 2)], 0, 0.8))
def _ushape(rng): return one("ushape", *extrude([(0, 0), (3, 0), (3, 2), (2, 2), (2, 1), (1, 1), (1, 2), (0, 2)], 0, 1))
def _plus(rng): return one("plus", *extrude([(1, 0), (2, 0), (2, 1), (3, 1), (3, 2), (2, 2), (2, 3), (1, 3), (1, 2), (0, 2), (0, 1), (1, 1)], 0, 1))
def _icosa(rng): return one("icosa", *icosphere(0))
def _sphere(rng): return one("sphere", *icosphere(2))
def _torus(rng): return one("torus", *torus(1.0, 0.45, 18, 10))
def _cyl(rng): return one("cyl", *cylinder(0.6, 1.0, 20, 2))
def _cone(rng): return one("cone", *cone(0.8, 0.9, 20))


def _frame(rng):
    """Box with a square through hole: genus 1."""
    o, i = [(0, 0), (3, 0), (3, 3), (0, 3)], [(1, 1), (2, 1), (2, 2), (1, 2)]
    V, F = [], []
    for z in (0, 1):
        V += [[p[0], p[1], z] for p in o] + [[p[0], p[1], z] for p in i]
    for k in range(4):
        j = (k + 1) % 4
        F += [[8 + k, 8 + j, 12 + j], [8 + k, 12 + j, 12 + k], [k, 4 + j, j], [k, 4 + k, 4 + j],
              [k, j, 8 + j], [k, 8 + j, 8 + k], [4 + k, 12 + j, 4 + j], [4 + k, 12 + k, 12 + j]]
    return one("frame", V, np.array(F))


def _nested(rng):
    a, b = (boxV((0, 0, 0), (2, 2, 2)), BOXF), (boxV((.6, .6, .6), (1.4, 1.4, 1.4)), BOXF)
    return union("nested", [a, b], [([0], [1]), ([1], [])])


def _cavities(rng):
    """A slab with several cavities: every cavity wall and the outer wall start as separate patches of one region."""
    n = 5; a = []
    for i in range(n):
        h = rng.uniform(.28, .36, 3); c = np.array([.75 + (i % 3) * 1.5 + rng.uniform(-.1, .1), .8 + (i // 3) * 1.5 + (i % 2) * .15, .75 + rng.uniform(-.08, .08)])
        a.append((boxV(c - h, c + h), BOXF))
    return union("cavities", [(boxV((0, 0, 0), (4.5, 3.1, 1.5)), BOXF)] + a, [([0], list(range(1, n + 1)))] + [([i], []) for i in range(1, n + 1)])


def _twobox(rng):
    a, b = (boxV((0, 0, 0), (1, 1, 1)), BOXF), (boxV((1.8, .2, .1), (2.9, 1.1, 1)), BOXF)
    return union("twobox", [a, b], [([0], []), ([1], [])])


def _sphereinbox(rng):
    s = icosphere(2, 0.5)
    return union("sphereinbox", [(boxV((-1, -1, -1), (1, 1, 1)), BOXF), s], [([0], [1]), ([1], [])])


def _stack2(rng): return grid_boxes("stack2", [0, 1], [0, 1], [0, 0.7, 1.5])
def _stack3(rng): return grid_boxes("stack3", [0, 0.8, 1.7, 2.5], [0, 1], [0, 0.9])
def _quad(rng): return grid_boxes("quad", [0, 1, 2], [0, 0.8, 1.7], [0, 1])


def _ridge(rng):
    """Faceted dome prism whose facets meet at 15 degrees: creases that are smooth or sharp depending on VC_ANGLE."""
    n = 7
    arc = [(math.cos(a), math.sin(a)) for a in np.linspace(0, math.pi / 2, n)]
    return one("ridge", *extrude([(0, 0)] + arc, 0, 0.8))


def _hullr(rng):
    for _ in range(50):
        P = rng.normal(size=(7, 3)); P /= np.linalg.norm(P, axis=1)[:, None]
        V, F = hull(P)
        if len(V) < 7: continue
        # avoid tiny edges/angles (the sampler's feature sizes follow them)
        e = min(np.linalg.norm(V[a] - V[b]) for f in F for a, b in ((f[0], f[1]), (f[1], f[2]), (f[2], f[0])))
        n = np.cross(V[F[:, 1]] - V[F[:, 0]], V[F[:, 2]] - V[F[:, 0]]); ar = np.linalg.norm(n, axis=1)
        angs = []
        for f in F:
            for k in range(3):
                u, w = V[f[(k + 1) % 3]] - V[f[k]], V[f[(k + 2) % 3]] - V[f[k]]
                angs.append(math.degrees(math.acos(np.dot(u, w) / np.linalg.norm(u) / np.linalg.norm(w))))
        if e > 0.5 and min(angs) > 22: return one("hullr", V, F)
    return _tetra(rng)


_GEN = {k[1:]: v for k, v in list(globals().items()) if k.startswith("_") and callable(v) and k[1:2] != "_" and k != "_GEN"}
NAMES = sorted(_GEN)


def rotation(rng):
    q = rng.normal(size=4); q /= np.linalg.norm(q)
    w, x, y, z = q
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                     [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                     [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])


def make(name, seed=0, rotate=False, scale=1.0, shift=(0, 0, 0)):
    rng = np.random.default_rng(seed)
    m = _GEN[name](rng)
    m.name = name
    if rotate or scale != 1.0 or any(shift):
        m = m.transform(rotation(rng) if rotate else None, scale, shift)
    return m


if __name__ == "__main__":
    for n in NAMES:
        m = make(n)
        V, F = m.V, m.F
        from collections import Counter
        c = Counter(tuple(sorted(e)) for f in F for e in ((f[0], f[1]), (f[1], f[2]), (f[2], f[0])))
        cen = m.V.mean(0)
        for k, s in enumerate(m.shells):
            d = Counter((f[i], f[(i + 1) % 3]) for f in s[1] for i in range(3))
            assert all(v == 1 and d.get((e[1], e[0])) == 1 for e, v in d.items()), (n, k)
            assert shell_volume(*s) > 0, n
        print(n, len(V), len(F), "edge valences", Counter(c.values()), "vol", np.round(m.region_volumes(), 4))
