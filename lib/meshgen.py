"""Random but reproducible mesher cases, and the generic body of the checks that judge mesher runs (P06-P11, P13)."""
import numpy as np
import oracle, pipe
from pipe import Case

# relative CPU cost of a run with default settings decides which models appear how often
CHEAP = ["tetra", "box", "octa", "wedge", "hexprism", "lshape", "stack2", "ridge", "hullr", "slab", "quad"]
DEAR = ["icosa", "sphere", "ushape", "plus", "frame", "nested", "stack3", "cyl", "torus", "sphereinbox"]


def bends(m):
    """angles (degrees) between the two faces of every edge that has two"""
    V, F = np.asarray(m.V), np.asarray(m.F)
    nn = np.cross(V[F[:, 1]] - V[F[:, 0]], V[F[:, 2]] - V[F[:, 0]]); nn /= np.linalg.norm(nn, axis=1)[:, None]
    e = {}
    for i, t in enumerate(F):
        for a, b in ((0, 1), (1, 2), (2, 0)): e.setdefault((min(t[a], t[b]), max(t[a], t[b])), []).append(i)
    return np.array([np.degrees(np.arccos(np.clip(abs(nn[k[0]] @ nn[k[1]]), 0, 1))) for k in e.values() if len(k) == 2] + [90.])


def angle(m, rng):
    """an angle threshold well apart from every bend of the model: edges left smooth must be clearly below it, or the
    sphere radii near them shrink towards zero and the run takes forever (by the design of the method)"""
    b = bends(m)
    ok = [a for a in (30, 30, 30, 20, 45, 38.5, 12) if not ((b > .65 * a) & (b < 1.05 * a)).any() and b[b < a].max(initial=0) < 25]
    return "%g" % rng.choice(ok) if ok else "10" if b[b > 1e-6].min() > 11 else "30"


def draw(rng, model=None, dear=None):
    """one case"""
    if model is None:
        d = rng.uniform() < .35 if dear is None else dear
        model = str(rng.choice(DEAR if d else CHEAP))
    cfg = {"LIP_CONST": str(rng.choice(["0.25", "0.25", "0.25", "0.3", "0.4", "0.2"])),
           "NUM_THREADS": int(rng.choice([1, 2, 3, 4, 7]))}
    scale = float(rng.choice([1, 1, 1, 1, 6.5, 120., .11]))
    shift = tuple((rng.uniform(-3, 3, 3) * scale).tolist()) if rng.uniform() < .3 else (0, 0, 0)
    c = Case(model, seed=int(rng.integers(1, 9)), cfg=cfg, rotate=bool(rng.uniform() < .55), scale=scale, shift=shift, shuffle=bool(rng.uniform() < .35),
             flip=bool(rng.uniform() < .25), split=bool(model in pipe.MULTI and rng.uniform() < .4), vcseed=int(rng.integers(1, 2 ** 31 - 1)))
    if c.split: c.shuffle = False
    m = c.model(); D = m.bbox_diag()
    c.cfg["VC_ANGLE"] = angle(m, rng)
    if rng.uniform() < .4: c.cfg["R_MAX"] = repr(float(D * rng.uniform(.12, .5)))
    if rng.uniform() < .25: c.sizing = pipe.sizing_for(m, rng, "many" if rng.uniform() < .2 else "point")
    return c


def cases(prop, seed, n, must=(), dear=.35):
    """`must`: dicts of attributes/model names that are always represented"""
    rng = np.random.default_rng([seed, int(prop[1:]), 4242])
    out = []
    for spec in must:
        spec = dict(spec); name = spec.pop("model", None)
        c = draw(rng, name)
        if "sizing" in spec: kind = spec.pop("sizing"); c.sizing = pipe.sizing_for(c.model(), rng, kind) if kind else None
        if "cfg" in spec: c.cfg.update({k: str(v) for k, v in spec.pop("cfg").items()})
        for k, v in spec.items(): setattr(c, k, v)
        out.append(c)
    while len(out) < n: out.append(draw(rng, dear=bool(rng.uniform() < dear)))
    return out


def body(chk, oracles, n_quick=10, n_thorough=160, must=(), dear=.35, need=("seeds.csv", "surface_mesh.obj"), after=None):
    """oracles: functions (R, metrics, rng) -> generator of violations"""
    exe = chk.b.exe("inline")
    cs = cases(chk.prop, chk.seed, n_thorough if chk.thorough else n_quick, must, dear)
    # dear cases first keeps the machine busy until the end
    cs.sort(key=lambda c: (c.name not in DEAR, c.ident()))

    def one(c):
        R = pipe.run_case(chk, exe, c, need=need)
        if R is None: return
        for o in oracles:
            m = {}
            pipe.judge(chk, R, o(R, m, np.random.default_rng([chk.seed, c.seed])), m)
        if after: after(chk, exe, c, R)
        chk.case(c.ident(), {"case": c.ident(), "spheres": int(len(R.spheres)), "triangles": int(R.nf), "seeds": int(len(R.seeds))})
        chk.note("cases_" + c.name); pipe.drop(R)
    chk.parallel(one, cs)
