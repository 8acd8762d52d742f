"""P04: results do not depend on the schedule of the threads: complete runs under forced schedules, byte for byte"""
import copy, hashlib, os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np
import fw, meshgen, oracle, pipe

IGNORE = ("VoroCrustLog.txt",)   # records wall clock times


def files(d):
    return {f: open(os.path.join(d, f), "rb").read() for f in sorted(os.listdir(d)) if f not in IGNORE and os.path.isfile(os.path.join(d, f))}


def points(m, rng, n):
    """monitoring points all over the model, close to each other and to the surface as well"""
    V = np.asarray(m.V); lo, hi = V.min(0), V.max(0); D = m.bbox_diag()
    P = rng.uniform(lo - .05 * D, hi + .05 * D, (n, 3)); r = rng.uniform(.01, .06, n) * D
    return "x1coord, x2coord, x3coord, radius\n" + "".join("%.12g, %.12g, %.12g, %.12g\n" % (*x, s) for x, s in zip(P, r))


def one(chk, exes, c, scheds, points_text):
    d = os.path.join(chk.work, "p04_" + pipe._hash(c.ident() + str(points_text)))
    ref = None; log = os.path.join(chk.work, "sched_" + os.path.basename(d))
    for s in scheds:
        shutil.rmtree(d, ignore_errors=True); c.prepare(d)
        if points_text: open(os.path.join(d, "monitoring_points.csv"), "w").write(points_text)
        before = set(os.listdir(d))
        kind, _, env = s
        e = dict(env, VC_SCHED_LOG=log)
        r = pipe.mesh(exes[kind], d, c, e, pipe.CPU1)
        if r.timeout:
            r = pipe.mesh(exes[kind], d, c, e, pipe.CPU2, wall=850)
            if r.timeout:
                if r.rc == -24: chk.violation("hang:" + c.name, "run of %s (%s) does not terminate within %d CPU seconds" % (c.ident(), s[1], pipe.CPU2), d)
                else:
                    with chk.lock: chk.inconclusive.append("wall clock limit on " + c.ident())
                return
        if r.rc != 0: chk.violation("crash:%s" % c.name, "run of %s (%s) ended with status %s\n%s" % (c.ident(), s[1], r.rc, r.err[-1000:]), d); return
        got = files(d)
        if ref is None:
            ref = got; new = set(got) - before
            if len(new) < 4: chk.violation("no-output:" + c.name, "run of %s wrote only %s" % (c.ident(), sorted(new)), d); return
            continue
        diff = sorted(f for f in set(ref) | set(got) if ref.get(f) != got.get(f))
        if diff:
            f = diff[0]; a, b = ref.get(f, b"").split(b"\n"), got.get(f, b"").split(b"\n")
            k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            chk.violation("schedule:%s" % c.name, "run of %s with %s threads writes different %s under schedule %s than under %s (%d and %d lines, first difference in line %d: %r against %r)" % (
                c.ident(), c.cfg["NUM_THREADS"], diff, s[1], scheds[0][1], len(b), len(a), k + 1, (b[k:] or [b""])[0][:120], (a[k:] or [b""])[0][:120]), d)
            return
        chk.note("comparisons"); chk.note("schedule_" + s[1].split(":")[0]); chk.note("bytes_compared", sum(map(len, got.values())))
    h = hashlib.md5(b"".join(ref.values())).hexdigest()[:8]
    chk.case(c.ident(), {"case": c.ident(), "threads": c.cfg["NUM_THREADS"], "schedules": [s[1] for s in scheds], "files": sorted(ref), "digest": h})
    if os.path.exists(log):
        for l in open(log):
            t = dict(x.split("=") for x in l.split())
            chk.note("parallel_regions_run", int(t["multi"])); chk.note("threads_started", int(t["threads"])); chk.note("critical_sections_entered", int(t["criticals"]))
    shutil.rmtree(d, ignore_errors=True)


def body(chk):
    chk.rule = "case = one model and configuration meshed under several forced thread schedules, under the real OpenMP run time and with other contents of fresh memory; every written file compared byte for byte"
    exes = {"shim": chk.b.exe("inline"), "real": chk.b.exe("plain")}
    cs = meshgen.cases("P04", chk.seed, 80 if chk.thorough else 8, ({"model": "box"}, {"model": "nested"}, {"model": "hullr", "sizing": "point"}, {"model": "lshape"}), dear=.1)
    rng = np.random.default_rng([chk.seed, 404]); jobs = []
    for i, c in enumerate(cs):
        c.cfg["NUM_THREADS"] = int(rng.choice([2, 3, 4, 5, 8])); c.cfg["GENERATE_VCG_FILE"] = ""
        k = [int(x) for x in rng.integers(1, 10 ** 6, 6)]
        fresh = {"MALLOC_PERTURB_": str(k[5] % 254 + 1)}
        sh = lambda s, **e: ("shim", s, dict({"VC_SCHED": s}, **e))
        s = [sh("inline:%d" % k[0]), sh("fwd"), sh("rev"), sh("inline:%d" % k[1], **fresh), ("real", "libgomp", {})]
        s.append([sh("delay:%d" % k[2]), sh("seq:%d" % k[3]), sh("par")][i % 3])
        if chk.thorough: s += [sh("seq:%d" % k[4]), sh("delay:%d" % k[4]), ("real", "libgomp", fresh), sh("par", **fresh), sh("inline:%d" % k[2])]
        pts = None
        if i % 3 == 1: c.cfg["IMPOSE_MONITORING_POINTS"] = ""; pts = points(c.model(), rng, 60)
        elif i % 3 == 2: c.cfg["GENERATE_MONITORING_POINTS"] = ""
        jobs.append((c, s, pts))
    jobs.sort(key=lambda j: j[0].name not in meshgen.DEAR)
    chk.parallel(lambda j: one(chk, exes, *j), jobs)


if __name__ == "__main__": fw.main("P04", body)
