"""Running vc_mesh on zoo models: configurations, inputs on disk, standard case lists."""
import os, shutil
import numpy as np
import zoo, oracle
from fw import run, HarnessError

# CPU seconds that one plain -O2 run of a quick case needs at most on the unchanged code is below 40; the limit that
# decides 'does not terminate' is an order of magnitude above and is confirmed by a second run with a larger one.
CPU1, CPU2 = 150, 240


class Case:
    def __init__(self, name, seed=0, cfg=None, rotate=False, scale=1.0, shift=(0, 0, 0), shuffle=False, flip=False, split=False, sizing=None, vcseed=None, tag=""):
        self.__dict__.update(name=name, seed=seed, rotate=rotate, scale=scale, shift=shift, shuffle=shuffle, flip=flip, split=split, sizing=sizing, vcseed=vcseed, tag=tag)
        self.cfg = dict(R_MAX="1000", LIP_CONST="0.25", VC_ANGLE="30", NUM_THREADS="1", GENERATE_VCG_FILE="")
        if scale != 1.0: self.cfg["R_MAX"] = repr(1000 * scale)
        self.cfg.update({k: str(v) for k, v in (cfg or {}).items()})
        for k in [k for k, v in self.cfg.items() if v == "None"]: del self.cfg[k]

    def ident(self):
        return "%s/%d/%s/%s%s%s%s%s/%s/%s" % (self.name, self.seed, ",".join("%s=%s" % kv for kv in sorted(self.cfg.items())), "R" * self.rotate,
                                            "F" * self.flip, "S" * self.shuffle, "M" * self.split, "" if self.scale == 1 else "x%g" % self.scale, self.tag, self.vcseed)

    def model(self):
        if not hasattr(self, "_m"):
            self._m = zoo.make(self.name, self.seed, self.rotate, self.scale, self.shift)
        return self._m

    def prepare(self, d):
        """write the input files; returns the model"""
        os.makedirs(d, exist_ok=True)
        m = self.model(); rng = np.random.default_rng([self.seed, 77])
        files = []
        if self.split:
            # one file per shell
            for k, (V, F) in enumerate(m.shells):
                if self.flip: F = flip_patches(F, rng)
                _obj(os.path.join(d, "in%d.obj" % k), V, F); files.append("in%d.obj" % k)
        else:
            V, F = m.V, m.F.copy()
            if self.shuffle:
                p = rng.permutation(len(V)); inv = np.empty(len(V), int); inv[p] = np.arange(len(V)); V = V[p]; F = inv[F]
                F = F[rng.permutation(len(F))]; F = np.array([np.roll(t, rng.integers(3)) for t in F])
            if self.flip: F = flip_patches(F, rng)
            _obj(os.path.join(d, "in.obj"), V, F); files.append("in.obj")
        with open(os.path.join(d, "vc.in"), "w") as f:
            for n in files: f.write("INPUT_MESH_FILE = %s\n" % n)
            for k, v in self.cfg.items(): f.write(("%s = %s\n" % (k, v)) if v != "" else k + "\n")
            if self.sizing is not None: f.write("SIZING_FILE = sizing.csv\n")
        if self.sizing is not None:
            with open(os.path.join(d, "sizing.csv"), "w") as f:
                f.write("x1coord, x2coord, x3coord, radius\n")
                for r in self.sizing: f.write(", ".join("%.16g" % x for x in r) + "\n")
        return m


def patches(F):
    """label of the patch of every face: faces connected across edges that have exactly two faces"""
    e = {}
    for i, t in enumerate(F):
        for a in range(3): e.setdefault(frozenset((int(t[a]), int(t[(a + 1) % 3]))), []).append(i)
    lab = list(range(len(F)))
    def find(i):
        while lab[i] != i: lab[i] = lab[lab[i]]; i = lab[i]
        return i
    for fs in e.values():
        if len(fs) == 2: lab[find(fs[0])] = find(fs[1])
    return np.array([find(i) for i in range(len(F))])


def flip_patches(F, rng):
    """reverse the orientation of randomly chosen whole patches (at least one)"""
    lab = patches(F); u = np.unique(lab); pick = rng.uniform(size=len(u)) < .5
    if not pick.any(): pick[rng.integers(len(u))] = True
    f = pick[np.searchsorted(u, lab)]
    return np.where(f[:, None], F[:, ::-1], F)


def _obj(p, V, F):
    with open(p, "w") as f:
        for v in V: f.write("v %.17g %.17g %.17g\n" % tuple(v))
        for t in F: f.write("f %d %d %d\n" % tuple(np.asarray(t) + 1))


def mesh(exe, d, case, env=None, cpu=CPU1, wall=700, threads=None):
    e = {"OMP_WAIT_POLICY": "passive", "VC_SCHED": "inline:%d" % (case.seed + 1), "VC_SEED": str(case.vcseed if case.vcseed is not None else 1234567890), "OMP_NUM_THREADS": str(max(8, int(float(case.cfg.get("NUM_THREADS", 1)))))}
    e.update(env or {})
    return run([exe, "-vc", "vc.in"], cwd=d, env=e, cpu=cpu, wall=wall)


def run_case(chk, exe, case, env=None, cpu=CPU1, cpu2=CPU2, need=("seeds.csv", "surface_mesh.obj"), prep=None, keep=False):
    """Runs one valid case; a crash or a confirmed non-termination is a violation of the property under check, since
    what it promises is not delivered. Returns oracle.Run or None."""
    d = os.path.join(chk.work, "run_" + _hash(case.ident()))
    shutil.rmtree(d, ignore_errors=True)
    m = case.prepare(d)
    if prep: prep(d, m)
    r = mesh(exe, d, case, env, cpu)
    if r.timeout:
        if r.rc not in (-24, -9) : pass
        chk.note("reruns_after_timeout")
        r = mesh(exe, d, case, env, cpu2, wall=850)
        if r.timeout:
            if r.rc == -24: chk.violation("hang:" + case.name, "run of %s does not terminate within %d CPU seconds" % (case.ident(), cpu2), d)
            else:
                with chk.lock: chk.inconclusive.append("wall clock limit on " + case.ident())
            return None
    if r.rc != 0:
        chk.violation("crash:" + case.name, "run of %s ended with status %s\n%s" % (case.ident(), r.rc, r.err[-1500:]), d)
        return None
    if "GENERATE_VCG_FILE" in case.cfg: need = tuple(need) + ("mesh.vcg",)
    for f in need:
        if not os.path.exists(os.path.join(d, f)):
            chk.violation("no-output:" + case.name, "run of %s ended with status 0 but wrote no %s\n%s" % (case.ident(), f, r.out[-1500:]), d)
            return None
    chk.maxi("cpu_wall_max_s", round(r.wall, 1))
    R = oracle.Run(d, m, case.cfg); R.result = r; R.case = case
    return R


def _hash(s):
    import hashlib
    return hashlib.md5(s.encode()).hexdigest()[:12]


def judge(chk, R, gen, metrics, label=""):
    """Drain an oracle generator; report its violations."""
    n = 0
    try:
        for key, msg in gen:
            chk.violation("%s:%s" % (key, R.case.name), "%s\ncase %s" % (msg, R.case.ident()), R.d); n += 1
            if n >= 3: break
    except (ValueError, IndexError, KeyError) as e:
        import traceback
        chk.violation("unreadable:%s" % R.case.name, "result files cannot be interpreted: %r\n%s\ncase %s" % (e, traceback.format_exc()[-800:], R.case.ident()), R.d); n += 1
    for k, v in metrics.items():
        if isinstance(v, bool) or not isinstance(v, (int, float)): continue
        if k.endswith("_min") or k.startswith("min_") or k.startswith("spacing"): chk.mini(k, float(v))
        elif k.endswith(("_err", "_max", "_excess", "_cos", "_dist", "_depth_in_sphere", "closedness", "_off", "_curved")) or k.startswith(("lip_s", "lip_e", "lip_c", "max_", "corner_d", "edge_d", "surf_d", "sizing_e", "separation_m")): chk.maxi(k, float(v))
        else: chk.note(k, v)
    return n


def drop(R):
    shutil.rmtree(R.d, ignore_errors=True)


# ---------------------------------------------------------------------------------------------------------- case lists
SIMPLE = ["tetra", "box", "octa", "wedge", "hexprism", "icosa", "lshape", "stack2", "ridge", "sphere", "hullr"]
BIGGER = ["ushape", "plus", "frame", "nested", "stack3", "quad", "cyl", "torus", "sphereinbox", "slab"]
MULTI = ["nested", "stack2", "stack3", "quad", "sphereinbox"]


def sizing_for(m, rng, kind="point"):
    """A sizing file that matters: a fine spot inside the model's box, coarse elsewhere; more points than spheres if 'many'."""
    lo, hi = m.V.min(0), m.V.max(0); D = m.bbox_diag()
    if kind == "core":   # a fine spot deep inside that no surface sphere is closest to
        Q = rng.uniform(lo, hi, (4000, 3)); Q = Q[m.classify(Q) > 0]; t = oracle.tri_dist(Q, np.asarray(m.V), np.asarray(m.F)); c = Q[t.argmax()]; h = t.max()
        u = rng.normal(size=(30, 3)); u *= (rng.uniform(0, .3 * h, 30) / np.linalg.norm(u, axis=1))[:, None]
        P = np.vstack([rng.uniform(lo - .1 * D, hi + .1 * D, (60, 3)), c[None], c + u]); d = np.linalg.norm(P - c, axis=1); P = P[(d < .4 * h) | (d > .9 * h)]; d = np.linalg.norm(P - c, axis=1)
        return np.c_[P, np.where(d < .4 * h, rng.uniform(.15, .25) * h, .5 * D)]
    n = 4000 if kind == "many" else 60
    P = rng.uniform(lo - .1 * D, hi + .1 * D, (n, 3)); c = rng.uniform(lo, hi)
    d = np.linalg.norm(P - c, axis=1); s = np.clip(0.05 * D + 0.3 * d, 0, 0.5 * D)
    return np.c_[P, s]
