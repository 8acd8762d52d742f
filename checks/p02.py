"""P02: hostile, truncated and cosmetically different input files"""
import os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy as np
import fw, harness, pipe, zoo
import p12
from p01 import head

ENV = {"ASAN_OPTIONS": harness.SAN["ASAN_OPTIONS"] + ":max_allocation_size_mb=4096", "UBSAN_OPTIONS": harness.SAN["UBSAN_OPTIONS"], "VC_SCHED": "inline:1", "OMP_NUM_THREADS": "8"}
# what a mesher run may end with: 0, a small error status, 99 = the input was read and meshing would start (VC_STOP)
ACCEPTED = 99
NUM = re.compile(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?$")


def num(t):
    """value of a plain decimal number, else None (the outcome is then not judged)"""
    return float(t) if NUM.match(t) and abs(float(t)) < 1e300 else None


# ------------------------------------------------------------------------------------------------ reference readers
def ref_obj(data):
    """(verdict, V, F): 'ok', 'bad' (must be refused) or '?' (not judged)"""
    V, F, odd = [], [], False
    for l in data.split(b"\n"):
        t = [x.decode("latin1") for x in l.split()]
        if any(ord(c) > 126 or ord(c) < 32 for x in t for c in x): odd = True
        if not t or t[0] not in ("v", "f"): continue
        if len(t) < 4: return "bad", None, None
        w = [num(x.split("/")[0] if t[0] == "f" else x) for x in t[1:4]]
        if any(x is None for x in w): odd = True; w = [1.0 if x is None else x for x in w]
        if t[0] == "v": V.append(w)
        else:
            if any(x != int(x) for x in w): odd = True
            if len(t) > 4: odd = odd or not t[4].startswith("#")
            F.append([int(x) for x in w])
    if not V or not F: return ("?" if odd else "bad"), None, None
    if any(i < 1 or i > len(V) for f in F for i in f): return ("?" if odd else "bad"), None, None
    return ("?" if odd else "ok"), np.array(V), np.array(F) - 1


KEYS = {"INPUT_MESH_FILE": 1, "SIZING_FILE": 1, "R_MIN": 1, "R_MAX": 1, "LIP_CONST": 1, "VC_ANGLE": 1, "NUM_THREADS": 1, "SEEDS_FILE": 1}


def ref_ctl(data):
    """(verdict, settings)"""
    s = {"R_MIN": 0., "R_MAX": None, "LIP_CONST": .1, "VC_ANGLE": 20., "NUM_THREADS": 1., "files": [], "sizing": None}; odd = False; v = "ok"
    for l in data.split(b"\n"):
        t = [x.decode("latin1") for x in l.split()]
        if any(ord(c) > 126 or ord(c) < 32 for x in t for c in x): odd = True
        if not t: continue
        if t[0] in KEYS:
            if len(t) < 3: return "bad", s
            if t[1] != "=": odd = True
            if t[0] in ("INPUT_MESH_FILE", "SEEDS_FILE"): s["files"].append(t[2])
            elif t[0] == "SIZING_FILE": s["sizing"] = t[2]
            else:
                x = num(t[2])
                if x is None: odd = True
                s[t[0]] = x if t[0] != "NUM_THREADS" or x is None else float(int(x))
        elif t[0] == "GENERATE_MESH_FROM_SEEDS": odd = True
    if not s["files"]: return "bad", s
    if odd: return "?", s
    if s["NUM_THREADS"] > 256: return "?", s
    if s["NUM_THREADS"] < 1 or s["R_MIN"] < 0 or (s["R_MAX"] is not None and s["R_MAX"] <= 0) or s["LIP_CONST"] <= 0: v = "bad"
    return v, s


def ref_csv(data, cols, positive):
    rows, odd = [], False
    L = data.split(b"\n"); L = L[:-1] if L and not L[-1] else L
    for l in L[1:]:
        l = l.decode("latin1"); odd = odd or any(ord(c) > 126 or (ord(c) < 32 and c not in "\t\r") for c in l)
        if not l.strip(" \t\r"): continue
        t = l.split(",")
        if len(t) < cols: return "bad", None
        w = [num(x.strip()) for x in t[:cols]]
        if any(x is None for x in w): odd = True; w = [1.0 if x is None else x for x in w]
        rows.append(w)
    if odd: return "?", None
    if not rows or any(r[positive] <= 0 for r in rows): return "bad", None
    return "ok", np.array(rows)


# ------------------------------------------------------------------------------------------------------- mutations
JUNK = [b"", b"0", b"-1", b"1", b"abc", b"nan", b"inf", b"-inf", b"1e400", b"1e-400", b"99999999999999999999", b"4294967297", b"-3", b"1.5", b"0x10", b"\xff\xfe", b"9" * 5000, b"%s%n", b"1e18", b"2147483648", b"-0", b"3/", b"/3", b"//", b"1//2", b"..", b"/dev/null", b"."]


def mutate(data, rng, sep):
    k = rng.integers(13); L = data.split(b"\n")
    if k == 0: return data[:rng.integers(len(data) + 1)]
    if k == 1:
        b = bytearray(data)
        for _ in range(rng.integers(1, 6)): b[rng.integers(len(b))] = rng.integers(256)
        return bytes(b)
    if k == 2: i, j = sorted(rng.integers(len(data) + 1, size=2)); return data[:i] + data[j:]
    if k == 3: i = rng.integers(len(L)); return b"\n".join(L[:i] + L[i + 1:])
    if k == 4: i = rng.integers(len(L)); return b"\n".join(L[:i] + [L[i]] * int(rng.integers(2, 5)) + L[i + 1:])
    if k == 5: i = rng.integers(len(data) + 1); return data[:i] + JUNK[rng.integers(len(JUNK))] + data[i:]
    if k == 6: rng.shuffle(L); return b"\n".join(L)
    if k == 7: i = rng.integers(len(data) + 1); return data[:i] + bytes(rng.integers(0, 256, int(rng.integers(1, 40))).astype(np.uint8)) + data[i:]
    i = rng.integers(len(L)); t = L[i].split(sep)
    if k == 8: t[rng.integers(len(t))] = JUNK[rng.integers(len(JUNK))]
    elif k == 9: del t[rng.integers(len(t))]
    elif k == 10: t = t[:rng.integers(len(t) + 1)]
    elif k == 11: t.insert(rng.integers(len(t) + 1), JUNK[rng.integers(len(JUNK))])
    else: t[rng.integers(len(t))] = b"%d" % rng.integers(-3, 12)
    L[i] = sep.join(t); return b"\n".join(L)


def cosmetic(data, rng, kind):
    """the same contents, written differently"""
    L = [l for l in data.split(b"\n") if l.strip()]; out = []; crlf = rng.uniform() < .5
    for n, l in enumerate(L):
        if (n or kind != "csv") and rng.uniform() < .3: out.append([b"", b"   ", b"\t"][rng.integers(3)])
        if kind == "obj":
            t = l.split(); s = [b" ", b"  ", b"\t", b" \t "][rng.integers(4)]
            if rng.uniform() < .2: out.append([b"# comment", b"vn 0 0 1", b"vt 0.5 0.5", b"o thing", b"s off", b"usemtl m", b"g f v", b"mtllib v.mtl", b"#f 1 2"][rng.integers(9)])
            if t[0] == b"f":
                m = rng.integers(4)
                if m: t = t[:1] + [x + [b"", b"/1", b"//1", b"/1/1"][m] for x in t[1:]]
            l = [b"", b" ", b"\t"][rng.integers(3)] + s.join(t) + [b"", b" ", b"\t"][rng.integers(3)]
        elif kind == "ctl":
            t = l.split(); s = [b" ", b"   ", b"\t"][rng.integers(3)]
            if rng.uniform() < .2: out.append([b"# comment", b"NOT_A_KEYWORD = 3", b"UNUSED", b"r_max = 4"][rng.integers(4)])
            l = [b"", b"  "][rng.integers(2)] + s.join(t) + ([b"", b" # remark"][rng.integers(2)] if len(t) > 2 else b"")
        else:
            t = [x.strip() for x in l.split(b",")]; s = [b",", b", ", b" ,  ", b",\t"][rng.integers(4)]; l = s.join(t) + [b"", b" "][rng.integers(2)]
        out.append(l)
    return (b"\r\n" if crlf else b"\n").join(out) + (b"" if rng.uniform() < .3 else b"\r\n" if crlf else b"\n")


# ----------------------------------------------------------------------------------------------------------- runs
class Ctx: pass


def put(d, files):
    os.makedirs(d, exist_ok=True)
    for n, t in files.items():
        if t is not None: open(os.path.join(d, n), "wb").write(t)


def attempt(chk, x, files, label, verdict, after=None, stop=True, cpu=20):
    """one sanitized run on the files; verdict 'ok', 'bad' or '?'"""
    d = os.path.join(chk.work, "p" + pipe._hash(label)); shutil.rmtree(d, ignore_errors=True); put(d, files)
    env = dict(ENV); env.update({"VC_STOP": "1"} if stop else {})
    r = fw.run([x, "-vc", "vc.in"], cwd=d, env=env, cpu=cpu, wall=300)
    if r.timeout:
        if r.rc == -24: chk.violation("hang:" + label.split("/")[0], "no end within %d CPU seconds (%s)" % (cpu, label), d)
        else:
            with chk.lock: chk.inconclusive.append("wall clock limit on " + label)
        return None
    if r.rc in (97, 98) or r.rc < 0 or r.rc > 100: k, t = head(r.err); chk.violation(k, "%s\nstatus %s (%s)" % (t, r.rc, label), d); return None
    accepted = r.rc == ACCEPTED or (not stop and r.rc == 0)
    if verdict == "ok" and not accepted: chk.violation("refused:" + label.split("/")[0], "a valid input was refused with status %s (%s)\n%s" % (r.rc, label, r.out[-600:]), d); return None
    if verdict == "bad" and (accepted or r.rc == 0): chk.violation("accepted:" + label.split("/")[0], "an input that cannot be read was accepted, status %s (%s)\n%s" % (r.rc, label, r.out[-600:]), d); return None
    chk.note("runs_" + {"ok": "of_valid_files", "bad": "of_unreadable_files", "?": "of_odd_files"}[verdict]); chk.note("accepted" if accepted else "refused")
    chk.case(label.split("/")[0] + "/" + pipe._hash(repr(sorted(files.items()))), {"input": label, "judged": verdict, "status": r.rc})
    if accepted and after and verdict == "ok":
        m = after(r, d)
        if m: chk.violation("misread:" + label.split("/")[0], "%s (%s)" % (m, label), d); return None
    shutil.rmtree(d, ignore_errors=True)
    return accepted


def read_clean(d):
    V, F = [], []
    for l in open(os.path.join(d, "clean.obj")):
        t = l.split()
        if t and t[0] == "v": V.append([float(x) for x in t[1:4]])
        if t and t[0] == "f": F.append([int(x.split("/")[0]) - 1 for x in t[1:4]])
    return np.array(V).reshape(-1, 3), np.array(F, int).reshape(-1, 3)


def same_obj(V, F):
    def after(r, d):
        from scipy.spatial import cKDTree
        if len(V) > 1 and cKDTree(V).query(V, 2)[0][:, 1].min() < 1e-5: return   # welding is judged by P16
        W, G = read_clean(d)
        if len(W) != len(V) or np.abs(W - V).max() > 1e-12 * (1 + np.abs(V).max()): return "the vertices read differ from those of the file"
        if len(G) != len(F) or (G != F).any(): return "the faces read differ from those of the file"
    return after


ECHO = {"R_MIN": "Minimum Sphere Radius", "R_MAX": "Maximum Sphere Radius", "LIP_CONST": "Lipschitz Const", "VC_ANGLE": "VC Smooth Angle Threshold", "NUM_THREADS": "Number of OpenMP threads"}


def same_ctl(s):
    def after(r, d):
        for k, t in ECHO.items():
            m = re.search(re.escape(t) + r" = (\S+)", r.out)
            if m and s[k] is not None and abs(float(m.group(1)) - s[k]) > 1e-4 * abs(s[k]): return "%s was read as %s instead of %s" % (k, m.group(1), s[k])
        if re.findall(r"Input Mesh = (\S+)", r.out) not in ([], s["files"]): return "the input meshes were read as %s instead of %s" % (re.findall(r"Input Mesh = (\S+)", r.out), s["files"])
    return after


def full(chk, exe, files, label):
    """complete run of the ordinary build; the files written, or None"""
    d = os.path.join(chk.work, "q" + pipe._hash(label)); shutil.rmtree(d, ignore_errors=True); put(d, files)
    r = fw.run([exe, "-vc", "vc.in"], cwd=d, env={"VC_SCHED": "inline:1", "VC_SEED": "77", "OMP_NUM_THREADS": "8"}, cpu=150, wall=600)
    if r.timeout:
        if r.rc == -24: chk.violation("hang:cosmetic", "no end within 150 CPU seconds (%s)" % label, d)
        else:
            with chk.lock: chk.inconclusive.append("wall clock limit on " + label)
        return None
    if r.rc != 0: chk.violation("refused:cosmetic", "status %s on a valid input (%s)\n%s" % (r.rc, label, (r.out + r.err)[-800:]), d); return None
    g = {f: open(os.path.join(d, f), "rb").read() for f in ("surface_spheres.csv", "seeds.csv", "surface_mesh.obj", "mesh.vcg", "edges_spheres.csv", "corner_spheres.csv") if os.path.exists(os.path.join(d, f))}
    shutil.rmtree(d, ignore_errors=True)
    return g


def body(chk):
    chk.rule = "case = one run of the mesher on a distinct set of input files; sanitized runs stop when meshing of the accepted input would start, except for seeds files"
    chk.assumptions += ["files that are well formed but describe an open or self-intersecting surface are outside the property", "outcomes for non-numeric fields are judged for safety only"]
    x = chk.b.exe("asani"); plain = chk.b.exe("inline"); rng = np.random.default_rng([chk.seed, 2]); m = 12 if chk.thorough else 1
    obj = {}
    for n in ("tetra", "box", "octa"): p = os.path.join(chk.work, n + ".obj"); zoo.make(n, 0).write_obj(p); obj[n] = open(p, "rb").read().rstrip() + b"\n"
    ctl = b"INPUT_MESH_FILE = in.obj\nSIZING_FILE = sz.csv\nR_MIN = 0.0\nR_MAX = 1000\nLIP_CONST = 0.25\nVC_ANGLE = 30\nNUM_THREADS = 2\nGENERATE_VCG_FILE\n"
    siz = b"x1coord, x2coord, x3coord, radius\n" + b"".join(b"%.6f, %.6f, %.6f, %.4f\n" % tuple(np.r_[rng.uniform(0, 1, 3), rng.uniform(.3, .9)]) for _ in range(6))
    jobs = []

    def base(**kw):
        f = {"vc.in": ctl, "in.obj": obj["tetra"], "sz.csv": siz}; f.update({k.replace("_", "."): v for k, v in kw.items()}); return f
    # control file -----------------------------------------------------------------------------------------------
    def control(data, label):
        v, s = ref_ctl(data)
        if v == "ok" and (s["files"] != ["in.obj"] or s["sizing"] not in (None, "sz.csv")): v = "bad" if all(re.match(r"[\w.]+$", f) for f in s["files"] + [s["sizing"] or "a"]) and (any(not os.path.exists(os.path.join("/", f)) and f not in ("in.obj",) for f in s["files"]) or s["sizing"] not in (None, "sz.csv")) else "?"
        if v != "bad" and any("/" in f or f in ("..", ".") for f in s["files"] + [s["sizing"] or ""]): v = "?"
        attempt(chk, x, base(vc_in=data), label, v, same_ctl(s))
    fixed = [b"", b"\n\n\n", b"\x00" * 50, b"INPUT_MESH_FILE", b"INPUT_MESH_FILE =", b"INPUT_MESH_FILE\n" + ctl, b"R_MAX = 3\n", b"GENERATE_MESH_FROM_SEEDS\n", b"A" * 100000, ctl + b"R_MAX", ctl + b"NUM_THREADS = \n"]
    for k in KEYS: fixed += [ctl + k.encode(), ctl + k.encode() + b" =", ctl + k.encode() + b" = \t \n", re.sub(b"(?m)^%s .*$" % k.encode(), k.encode(), ctl)]
    for k in ("R_MIN", "R_MAX", "LIP_CONST", "VC_ANGLE", "NUM_THREADS"):
        for j in JUNK: fixed.append(re.sub(b"(?m)^%s .*$" % k.encode(), k.encode() + b" = " + j, ctl))
    fixed += [ctl.replace(b"NUM_THREADS = 2", b"NUM_THREADS = %s" % t) for t in (b"0", b"-1", b"-2147483649", b"1e10", b"3000000000", b"0.5")]
    fixed += [ctl.replace(b"in.obj", n) for n in (b"no.obj", b"a_folder", b"/dev/null", b"vc.in", b"sz.csv")] + [ctl.replace(b"sz.csv", n) for n in (b"no.csv", b"vc.in", b"in.obj", b"/dev/null")]
    for i, t in enumerate(fixed): jobs.append(lambda t=t, i=i: control(t, "control/fixed%d" % i))
    for i in range(400 * m):
        r = np.random.default_rng([chk.seed, 20, i]); jobs.append(lambda r=r, i=i: control(mutate(ctl, r, b" "), "control/%d" % i))
    for i in range(60 * m):
        r = np.random.default_rng([chk.seed, 21, i]); jobs.append(lambda r=r, i=i: control(cosmetic(ctl, r, "ctl"), "control-cosmetic/%d" % i))
    jobs.append(lambda: attempt(chk, x, {"in.obj": obj["tetra"]}, "control-missing/0", "bad"))
    # OBJ --------------------------------------------------------------------------------------------------------
    def mesh(data, label):
        v, V, F = ref_obj(data)
        if v == "ok":
            a = V[F]; A = np.linalg.norm(np.cross(a[:, 1] - a[:, 0], a[:, 2] - a[:, 0]), axis=1)
            if A.min() < 1e-9 or np.abs(V).max() > 1e9: v = "?"
        attempt(chk, x, base(in_obj=data), label, v, None if v != "ok" else same_obj(V, F))
    o = obj["tetra"]; last = o.rstrip().split(b"\n")[-1]
    fixed = [b"", b"\n", b"\x00" * 9, b"v\n", b"f\n", b"v 1 2\n" + o, o + b"f 1 2\n", o + b"f 1\n", o + b"f\n", o + b"v\n", o + b"f 0 1 2\n", o + b"f -1 -2 -3\n", o + b"f 1 2 5\n", o + b"f 1 2 99999999999999999999\n", o + b"f 1 2 4294967298\n", o + b"f 1 2 nan\n", o + b"f a b c\n", o + b"f / / /\n",
             o + b"f 1e300 2 3\n", o.replace(b"f", b"#"), o.replace(b"v", b"#"), b"f 1 2 3\n" + o, b"\n".join(sorted(o.split(b"\n"))) + b"\n", o + b"f 1 1 2\n", o + b"v 0 0 0\n", o + b"f 18446744073709551617 2 3\n"]
    for i in range(0, len(o), max(1, len(o) // 60)): fixed.append(o[:i])
    for i, t in enumerate(fixed): jobs.append(lambda t=t, i=i: mesh(t, "obj/fixed%d" % i))
    for i in range(700 * m):
        r = np.random.default_rng([chk.seed, 22, i]); jobs.append(lambda r=r, i=i: mesh(mutate(obj[("tetra", "box", "octa")[i % 3]], r, b" "), "obj/%d" % i))
    for i in range(120 * m):
        r = np.random.default_rng([chk.seed, 23, i]); jobs.append(lambda r=r, i=i: mesh(cosmetic(obj[("tetra", "box", "octa")[i % 3]], r, "obj"), "obj-cosmetic/%d" % i))

    def two(a, b, label):
        v = ref_obj(a)[0], ref_obj(b)[0]; v = "bad" if "bad" in v else "?" if "?" in v else "ok"
        attempt(chk, x, {"vc.in": ctl.replace(b"SIZING_FILE = sz.csv\n", b"INPUT_MESH_FILE = in2.obj\n"), "in.obj": a, "in2.obj": b}, label, v if v == "bad" else "?")
    for i in range(60 * m):
        r = np.random.default_rng([chk.seed, 24, i]); g = [obj["tetra"], obj["octa"].replace(b"v ", b"v 5")]; g[i % 2] = mutate(g[i % 2], r, b" ")
        jobs.append(lambda g=g, i=i: two(g[0], g[1], "obj-pair/%d" % i))
    # sizing -----------------------------------------------------------------------------------------------------
    def sizing(data, label): attempt(chk, x, base(sz_csv=data), label, ref_csv(data, 4, 3)[0] if data.split(b"\n")[0].count(b",") == 3 else "?")
    h = siz.split(b"\n")[0]
    fixed = [None, b"", h, h + b"\n", h + b"\n\n\n", siz + b"\n\n", siz + b"1,2,3\n", siz + b"1\n", siz + b"1,2,3,0\n", siz + b"1,2,3,-4\n", siz + b"1,2,3,abc\n", siz.replace(b",", b";"), h + b",a,b,c\n" + siz, h + b"\n0,0,0,.4,0,0,1\n", h + b",n1,n2,n3\n0,0,0,.4,0,0,1\n0,0,1,.4\n", h + b",n1,n2,n3,a1,a2\n0,0,0,.4,0,0,1,2\n", h + b",n1,n2,n3,a1,a2\n0,0,0,.4,0,0,1,2,3\n" * 3, siz * 3, b"\x00" * 30]
    for i, t in enumerate(fixed): jobs.append(lambda t=t, i=i: sizing(t, "sizing/fixed%d" % i) if t is not None else attempt(chk, x, base(sz_csv=None), "sizing/missing", "bad"))
    for i in range(300 * m):
        r = np.random.default_rng([chk.seed, 25, i]); jobs.append(lambda r=r, i=i: sizing(mutate(siz, r, b","), "sizing/%d" % i))
    for i in range(60 * m):
        r = np.random.default_rng([chk.seed, 26, i]); jobs.append(lambda r=r, i=i: sizing(cosmetic(siz, r, "csv"), "sizing-cosmetic/%d" % i))
    # seeds ------------------------------------------------------------------------------------------------------
    X, R = p12.seeds_set("uniform", 14, rng); d = os.path.join(chk.work, "seeds"); p12.write(d, X, np.full(len(X), .3), R, 2)
    sd = open(os.path.join(d, "s.csv"), "rb").read(); sc = open(os.path.join(d, "vc.in"), "rb").read()
    ref = full(chk, plain, {"vc.in": sc, "s.csv": sd}, "seeds-plain")

    def seeds(data, label, cos=False):
        v = ref_csv(data, 5, 3)[0]
        if v == "ok" and not cos: v = "?"
        def after(r, dd):
            if cos and open(os.path.join(dd, "mesh.vcg"), "rb").read() != ref["mesh.vcg"]: return "a cosmetically different seeds file gives another mesh"
        attempt(chk, x, {"vc.in": sc, "s.csv": data}, label, v, after, stop=False, cpu=60)
    L = sd.split(b"\n"); h = L[0] + b"\n"; inside = [l for l in L[1:] if l and not l.endswith(b" 0")]; out = [l for l in L[1:] if l.endswith(b" 0")]
    if not ref: return
    jobs.append(lambda: attempt(chk, x, {"vc.in": sc}, "seeds/missing", "bad", stop=False)); jobs.append(lambda: attempt(chk, x, {"vc.in": b"GENERATE_MESH_FROM_SEEDS\n"}, "seeds/unnamed", "bad", stop=False))
    fixed = [b"", h, b"\n".join([h[:-1]] + inside), b"\n".join([h[:-1]] + inside[:1]), b"\n".join([h[:-1]] + inside[:2] + out[:2]), b"\n".join([h[:-1]] + out), sd + sd.split(b"\n")[1], sd + b"1,2,3\n", sd + b"\n", sd + b"1\n", sd + b"0,0,0,0,1\n", sd + b"0,0,0,-1,1\n", sd + b"0.1,0.1,0.1,.2,18446744073709551615\n", sd + b"0.1,0.1,0.1,.2,-1\n", sd + b"0.1,0.1,0.1,.2,1000000000000\n", sd + b"0.1,0.1,0.1,.2,4294967295\n", sd + b"1e200,0,0,.1,1\n", sd + b"1e308,1e308,0,.1,0\n", sd + b"0,0,0,1e300,1\n", sd + b"0,0,0,1e-300,1\n", sd + b"nan,nan,nan,nan,1\n", sd * 3, h + b"0,0,0,1,1\n" * 5]
    for i, t in enumerate(fixed): jobs.append(lambda t=t, i=i: seeds(t, "seeds/fixed%d" % i))
    for t in (b"\n".join([h[:-1]] + inside[:1]) + b"\n", b"\n".join([h[:-1]] + inside[:3]) + b"\n"):   # cells that no other seed bounds
        jobs.append(lambda t=t: attempt(chk, x, {"vc.in": sc, "s.csv": t}, "seeds-unbounded/%d" % len(t), "bad", stop=False, cpu=60))
    for i in range(150 * m):
        r = np.random.default_rng([chk.seed, 27, i]); jobs.append(lambda r=r, i=i: seeds(mutate(sd, r, b","), "seeds/%d" % i))
    for i in range(12 * m):
        r = np.random.default_rng([chk.seed, 28, i]); jobs.append(lambda r=r, i=i: seeds(cosmetic(sd, r, "csv"), "seeds-cosmetic/%d" % i, True))
    # complete runs: cosmetic differences of all files at once change no result ------------------------------------
    small = base(vc_in=ctl.replace(b"0.25", b"0.4"))
    want = full(chk, plain, small, "plain")
    def whole(i):
        r = np.random.default_rng([chk.seed, 29, i]); f = {"vc.in": cosmetic(small["vc.in"], r, "ctl"), "in.obj": cosmetic(small["in.obj"], r, "obj"), "sz.csv": cosmetic(siz, r, "csv")}
        g = full(chk, plain, f, "whole%d" % i)
        if g is None: return
        diff = sorted(k for k in set(g) | set(want) if g.get(k) != want.get(k))
        if diff: chk.violation("misread:whole", "cosmetic differences of the input files change %s" % diff, files={k: v.decode("latin1") for k, v in f.items()}); return
        chk.note("complete_runs_compared"); chk.case("whole/%d" % i)
    for i in range(6 * m): jobs.insert(0, lambda i=i: whole(i))
    if want: chk.parallel(lambda j: j(), jobs)


if __name__ == "__main__": fw.main("P02", body)
