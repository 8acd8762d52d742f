"""P14: meshing from a saved seeds file reproduces the mesh"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import numpy as np
import fw, meshgen, oracle, pipe


def reseed(chk, exe, d, rows, threads, sched):
    """mesh the given rows of a seeds file (text lines)"""
    d = d + "_r"; import shutil; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(os.path.join(d, "s.csv"), "w").write("\n".join(rows) + "\n")
    open(os.path.join(d, "vc.in"), "w").write("SEEDS_FILE = s.csv\nGENERATE_MESH_FROM_SEEDS\nGENERATE_VCG_FILE\nNUM_THREADS = %d\n" % threads)
    for cpu in (100, 300):
        r = fw.run([exe, "-vc", "vc.in"], cwd=d, env={"VC_SCHED": sched}, cpu=cpu)
        if not r.timeout: break
    return r, d


def body(chk):
    chk.rule = "case = one mesher run whose saved seeds were meshed again (same order, other thread count; another order), cells and connections compared"
    def after(chk, exe, c, R):
        rng = np.random.default_rng([chk.seed, c.seed, 14])
        lines = open(R.path("seeds.csv")).read().split("\n"); head, rows = lines[0], [l for l in lines[1:] if l]
        reg = R.seeds[:, 4].astype(int); inside = np.where(reg != 0)[0]; A = R.vcg
        if len(A[0]) != len(inside): chk.violation("cells:" + c.name, "%d cells for %d seeds of a region in the seeds file\ncase %s" % (len(A[0]), len(inside), c.ident()), R.d); return
        for how in ("same", "permuted"):
            p = np.arange(len(rows)) if how == "same" else rng.permutation(len(rows))
            t = int(rng.integers(1, 9)); r, d = reseed(chk, exe, R.d, [head] + [rows[i] for i in p], t, "inline:%d" % rng.integers(1000))
            label = "%s:%s" % (how, c.name); text = "\n%s order, %d threads, case %s" % (how, t, c.ident())
            if r.timeout or r.rc != 0 or not os.path.exists(os.path.join(d, "mesh.vcg")):
                chk.violation("run-" + label, "meshing the saved seeds ended with status %s%s%s" % (r.rc, " (does not terminate)" if r.timeout else "", text), d); return
            try: B = oracle.read_vcg(os.path.join(d, "mesh.vcg"))
            except (ValueError, IndexError) as e: chk.violation("unreadable-" + label, "mesh file cannot be read: %r%s" % (e, text), d); return
            pos = np.cumsum(reg != 0) - 1; back = pos[p[reg[p] != 0]]; m = {}
            for key, msg in oracle.o_same_mesh(A, B, back, R.L, m): chk.violation("%s-%s" % (key, label), msg + text, d); return
            if (B[0][:, 5].astype(int) != reg[p[reg[p] != 0]]).any(): chk.violation("region-" + label, "cells do not carry the region ids of the file" + text, d); return
            for k, v in m.items(): (chk.maxi if k.endswith("_err") else chk.note)(k, v)
            chk.note("meshes_compared")
            import shutil; shutil.rmtree(d, ignore_errors=True)
    meshgen.body(chk, [], n_quick=12, n_thorough=120, must=({"model": "nested"}, {"model": "stack2"}, {"model": "lshape", "sizing": "point"}, {"model": "sphere"}, {"model": "quad", "split": True, "shuffle": False}), after=after)


if __name__ == "__main__": fw.main("P14", body)
