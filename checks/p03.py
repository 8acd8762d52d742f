"""P03: no data race: ThreadSanitizer over complete runs, with an OpenMP run time compiled with the same sanitizer"""
import os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np
import fw, harness, meshgen, pipe
from pipe import Case
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__))))
import p04


def reports(err):
    """(key, text) of every ThreadSanitizer report: the key names the two source lines"""
    out = []
    for part in err.split("==================\n"):
        m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]*)", part)
        if not m: continue
        where = re.findall(r"#\d+ .*?([A-Za-z_]\w*\.(?:cpp|cxx|h)):(\d+)", part)
        fn = re.findall(r"#\d+ (?:void |int |bool )?([\w:~]+)", part)
        loc = [f for f in fn if "Meshing" in f or "VoroSpokes" in f]
        out.append(("%s:%s" % (m.group(1).strip().replace(" ", "-"), "+".join(sorted(set(loc[:2]))) or "?"), part[:3000]))
    return out


def one(chk, exe, c, sched, pts):
    d = os.path.join(chk.work, "p03_" + pipe._hash(c.ident() + sched)); shutil.rmtree(d, ignore_errors=True); c.prepare(d)
    if pts: open(os.path.join(d, "monitoring_points.csv"), "w").write(pts)
    log = os.path.join(chk.work, "log_" + os.path.basename(d))
    e = {"VC_SCHED": sched, "VC_SCHED_LOG": log, "TSAN_OPTIONS": "exitcode=66:halt_on_error=0:report_thread_leaks=0:history_size=4:suppress_equal_stacks=1:atexit_sleep_ms=0"}
    r = pipe.mesh(exe, d, c, e, cpu=1500, wall=700)
    rep = reports(r.err)
    for k, t in rep[:3]: chk.violation("race:" + k, "%s\ncase %s threads %s schedule %s" % (t, c.ident(), c.cfg["NUM_THREADS"], sched), d)
    if rep: return
    if r.timeout:
        with chk.lock: chk.inconclusive.append("no end within the limits: " + c.ident())
        return
    if r.rc != 0: chk.violation("crash:" + c.name, "run of %s ended with status %s\n%s" % (c.ident(), r.rc, r.err[-1500:]), d); return
    if not os.path.exists(os.path.join(d, "seeds.csv")): chk.violation("no-output:" + c.name, "run of %s wrote no seeds" % c.ident(), d); return
    t = dict(x.split("=") for x in open(log).read().split("\n")[0].split()) if os.path.exists(log) else {}
    chk.note("parallel_regions_monitored", int(t.get("multi", 0))); chk.note("threads_started", int(t.get("threads", 0))); chk.note("critical_sections_entered", int(t.get("criticals", 0)))
    chk.maxi("wall_max_s", round(r.wall, 1))
    chk.case(c.ident() + sched, {"case": c.ident(), "threads": c.cfg["NUM_THREADS"], "schedule": sched, "regions": int(t.get("multi", 0)), "wall_s": round(r.wall, 1)})
    shutil.rmtree(d, ignore_errors=True)


def body(chk):
    chk.rule = "case = one complete multi-threaded mesher run under ThreadSanitizer with injected delays at every synchronisation"
    exe = chk.b.exe("tsan")
    rng = np.random.default_rng([chk.seed, 303]); k = lambda: int(rng.integers(1, 10 ** 6))
    cs = []
    def add(name, threads, sched="delay", pts=0, sizing=None, **cfg):
        c = Case(name, seed=int(rng.integers(1, 9)), cfg=dict({"LIP_CONST": "0.3", "NUM_THREADS": threads}, **cfg), rotate=bool(rng.uniform() < .5), vcseed=k(), split=False)
        m = c.model(); c.cfg["VC_ANGLE"] = meshgen.angle(m, rng)
        if sizing: c.sizing = pipe.sizing_for(m, rng, sizing)
        if pts: c.cfg["IMPOSE_MONITORING_POINTS"] = ""
        cs.append((c, "%s:%d" % (sched, k()), p04.points(m, rng, pts) if pts else None))
    # every parallel phase: sphere sizing and sampling, refinement, limiting, monitoring points, fronts, cells, saving
    add("box", 3, pts=250, GENERATE_VCG_FILE="")
    add("tetra", 2, GENERATE_VCG_FILE="", GENERATE_MONITORING_POINTS="")
    add("wedge", 4, GENERATE_VCG_FILE="")
    add("stack2", 3, GENERATE_VCG_FILE="")
    add("hexprism" if chk.seed % 2 else "octa", 5, "par", GENERATE_VCG_FILE="")
    add("lshape", 4, pts=60, sizing="point", R_MAX=1.2, GENERATE_VCG_FILE="")
    add("slab", 8, "par", sizing="many")
    if chk.thorough:
        for i in range(24):
            add(str(rng.choice(meshgen.CHEAP)), int(rng.choice([2, 3, 4, 5, 8])), str(rng.choice(["delay", "delay", "par"])), pts=int(rng.choice([0, 0, 300])), sizing=rng.choice([None, None, "point"]), GENERATE_VCG_FILE="")
        for n in ("nested", "lshape", "cyl", "frame", "sphereinbox"): add(n, 4, GENERATE_VCG_FILE="")
    chk.parallel(lambda j: one(chk, exe, *j), cs, workers=4)


if __name__ == "__main__": fw.main("P03", body)
