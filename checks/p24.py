"""P24: the Exodus file describes the same mesh as the .vcg file"""
import os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from collections import Counter
import numpy as np
import fw, meshgen, oracle, p12, pipe

FACE, ELEM = 8, 1


def read(p):
    """the calls recorded by the stand-in library (src/exodus/exodusII.h)"""
    E = {"order": [], "errors": []}
    for l in open(p):
        t = l.split(); E["order"].append(t[0])
        if t[0] == "ERROR": E["errors"].append(l.strip())
        elif t[0] == "init": E["init"] = {t[i]: int(t[i + 1]) for i in range(1, len(t), 2)}
        elif t[0] in "xyz": E[t[0]] = np.array([float(v) for v in t[2:]])
        elif t[0] == "block": E["block", int(t[1])] = (int(t[2]), t[3], {t[i]: int(t[i + 1]) for i in range(4, len(t), 2)})
        elif t[0] == "conn": E["conn", int(t[1]), t[3]] = (int(t[2]), np.array([int(v) for v in t[5:]], int))
        elif t[0] == "counts": E["counts", int(t[1])] = (int(t[2]), np.array([int(v) for v in t[4:]], int))
        elif t[0] == "coord_names": E["names"] = t[1:]
    return E


def o_exodus(E, vcg, m, general):
    C, K, _ = vcg; nc, nk = len(C), len(K)
    if E["errors"]: yield "misuse", "the library would refuse a call: %s" % E["errors"][0]; return
    if "init" not in E or E["order"][-1] != "close" or E["order"].count("close") != 1: yield "incomplete", "the file is not initialised or not closed: %s" % E["order"][-5:]; return
    I = E["init"]; n = I["nodes"]
    for k, w in (("dim", 3), ("faces", nk), ("elems", nc), ("face_blocks", 1), ("elem_blocks", 1), ("node_sets", 0), ("side_sets", 0)):
        if I[k] != w: yield "init-" + k, "the file announces %d %s, mesh.vcg has %d" % (I[k], k, w); return
    if E.get("names") != ["x", "y", "z"]: yield "names", "coordinate names %s" % E.get("names")
    V = np.c_[E["x"], E["y"], E["z"]]; mag = np.abs(V).max() if len(V) else 1.
    if not np.isfinite(V).all(): yield "nan", "a node is not finite"; return
    for t, kind, cnt in ((FACE, "nsided", nk), (ELEM, "nfaced", nc)):
        if ("block", t) not in E: yield "block", "no block of kind %s" % kind; return
        if E["block", t][1] != kind or E["block", t][2]["n"] != cnt: yield "block", "block %s for %d entries" % (E["block", t], cnt); return
    fb, fn = E["conn", FACE, "nodes"]; fcb, fc = E["counts", FACE]; eb, en = E["conn", ELEM, "faces"]; ecb, ec = E["counts", ELEM]
    if fb != E["block", FACE][0] or fcb != fb or eb != E["block", ELEM][0] or ecb != eb: yield "block-id", "connectivity goes to another block"; return
    if (fc < 3).any() or fc.sum() != len(fn) or ec.sum() != len(en): yield "counts", "counts of corners or faces do not add up to the lists"; return
    if len(fn) and (fn.min() < 1 or fn.max() > n): yield "node-range", "a face uses node %d of %d" % (fn.max() if fn.max() > n else fn.min(), n); return
    if len(en) and (en.min() < 1 or en.max() > nk): yield "face-range", "a cell uses face %d of %d" % (en.max() if en.max() > nk else en.min(), nk); return
    m["unused_nodes"] = n - len(set(fn.tolist()))
    # faces: polygon in the plane midway between the two seeds, with the area written in mesh.vcg
    eps = 6e-8 * mag * 4                     # coordinates are written in single precision
    o = np.r_[0, np.cumsum(fc)]; perim = np.zeros(nk); area = np.zeros(nk); off = np.zeros(nk); vec = np.zeros((nk, 3)); cen = np.zeros((nk, 3))
    for i in range(nk):
        q = fn[o[i]:o[i + 1]]
        if len(set(q.tolist())) != len(q): yield "repeated-node", "face %d lists a node twice" % (i + 1); return
        P = V[q - 1]; c = P.mean(0); d = P - c; x = np.cross(d, np.roll(d, -1, 0)).sum(0) / 2
        vec[i] = x; area[i] = np.linalg.norm(x); cen[i] = c; perim[i] = np.linalg.norm(P - np.roll(P, -1, 0), axis=1).sum(); off[i] = np.abs((P - K[i, 2:5]) @ K[i, 6:9]).max()
    # sum of the absolute triangle areas equals the area only if the corners go around in order
    e = np.abs(area - K[:, 5]) / (eps * perim + 1e-6 * K[:, 5] + eps * eps); m["area_err"] = float(e.max())
    if e.max() > 1: i = e.argmax(); yield "area", "face %d has area %g, mesh.vcg says %g" % (i + 1, area[i], K[i, 5]); return
    # (short corners of slivers may be off by the conditioning of the corner, so the plane is judged loosely)
    m["plane_err"] = float(off.max() / mag)
    if off.max() > eps * 4 + 1e-6 * mag: i = off.argmax(); yield "plane", "a corner of face %d lies %g off the plane between its seeds" % (i + 1, off[i]); return
    # cells: exactly the faces mesh.vcg connects them by, and the volume they enclose
    o = np.r_[0, np.cumsum(ec)]; own = [set() for _ in range(nc)]
    for i, (a, b) in enumerate(K[:, :2].astype(int)): own[a - 1].add(i + 1); own[b - 1].add(i + 1)
    vol = np.zeros(nc)
    for c in range(nc):
        q = en[o[c]:o[c + 1]]
        if len(q) != len(own[c]) or set(q.tolist()) != own[c]: yield "cell-faces", "cell %d lists faces %s, mesh.vcg connects it by %s" % (c + 1, sorted(q.tolist())[:12], sorted(own[c])[:12]); return
        s = C[c, 1:4]; vol[c] = sum(abs((cen[f - 1] - s) @ vec[f - 1]) for f in q) / 3
        bound = sum(eps * (perim[f - 1] * np.linalg.norm(cen[f - 1] - s) + area[f - 1]) for f in q) + 1e-5 * C[c, 4]
        if abs(vol[c] - C[c, 4]) > bound: yield "cell-volume", "cell %d encloses %g, mesh.vcg says %g" % (c + 1, vol[c], C[c, 4]); return
    # a cell is a closed polyhedron: every edge of it belongs to two of its faces
    bad = 0; of = np.r_[0, np.cumsum(fc)]
    ring = [[tuple(sorted(p)) for p in zip(fn[of[i]:of[i + 1]].tolist(), np.roll(fn[of[i]:of[i + 1]], -1).tolist())] for i in range(nk)]
    for c in range(nc):
        cnt = Counter(e for f in en[o[c]:o[c + 1]] for e in ring[f - 1])
        if any(v != 2 for v in cnt.values()): bad += 1
    m["open_cells"] = bad
    if general and bad: yield "open-cell", "%d of %d cells are not closed: an edge does not belong to exactly two of their faces" % (bad, nc); return
    m["nodes"] = n; m["faces"] = nk; m["cells"] = nc


def body(chk):
    chk.rule = "case = one mesh written in both formats, through a recording stand-in for the Exodus library, and compared face by face and cell by cell; distinct by model or set of seeds"
    ex = "-DUSE_EXODUS -I" + os.path.join(fw.VERIF, "src", "exodus")
    exe = chk.b.exe("inline", extra=ex)

    def judge(d, label, vcg=None, general=False):
        p = os.path.join(d, "mesh.exo")
        if not os.path.exists(p): chk.violation("no-exodus:" + label, "no Exodus file was written for %s" % label, d); return False
        m = {}
        try:
            E = read(p)
            for key, msg in o_exodus(E, vcg or oracle.read_vcg(os.path.join(d, "mesh.vcg")), m, general): chk.violation("%s:%s" % (key, label.split("/")[0]), "%s\ncase %s" % (msg, label), d); return False
        except (ValueError, IndexError, KeyError, StopIteration) as e: chk.violation("unreadable:" + label.split("/")[0], "the recorded calls cannot be interpreted: %r (%s)" % (e, label), d); return False
        for k, v in m.items(): (chk.maxi if k.endswith("_err") else chk.note)(k, v)
        return True

    def seeds(job):
        kind, n, seed, scale = job; rng = np.random.default_rng([seed, 24]); X, R = p12.seeds_set(kind, n, rng); X = (X + rng.normal(size=3)) * scale
        from scipy.spatial import cKDTree
        sz = cKDTree(X).query(X, 2)[0][:, 1]; d = os.path.join(chk.work, "s%s_%d_%d" % (kind, n, seed)); label = "%s/%d/%d/x%g" % job
        p12.write(d, X, sz, R, int(rng.integers(1, 9)))
        with open(os.path.join(d, "vc.in"), "a") as f: f.write("GENERATE_EXODUS_FILE\n")
        if p12.execute(chk, exe, d, label, "inline:%d" % seed) is None: return
        if not judge(d, label, general=True): return
        chk.case(label, {"seeds": label}); chk.note("seed_sets")
        # alone, without the .vcg file
        a = open(os.path.join(d, "mesh.exo"), "rb").read(); os.remove(os.path.join(d, "mesh.vcg")); os.remove(os.path.join(d, "mesh.exo"))
        t = open(os.path.join(d, "vc.in")).read().replace("GENERATE_VCG_FILE\n", ""); open(os.path.join(d, "vc.in"), "w").write(t)
        r = fw.run([exe, "-vc", "vc.in"], cwd=d, env={"VC_SCHED": "inline:%d" % seed}, cpu=200)
        if r.rc != 0 and not r.timeout: chk.violation("alone-crash:" + kind, "status %s when only the Exodus file is requested (%s)" % (r.rc, label), d)
        elif not r.timeout:
            p = os.path.join(d, "mesh.exo")
            if not os.path.exists(p) or open(p, "rb").read() != a: chk.violation("alone:" + kind, "the Exodus file changes when no .vcg file is requested (%s)" % label, d)
            chk.note("written_alone")
        shutil.rmtree(d, ignore_errors=True)

    def model(c):
        R = pipe.run_case(chk, exe, c)
        if R is None: return
        if judge(R.d, c.ident(), R.vcg): chk.case(c.ident(), {"case": c.ident(), "cells": len(R.vcg[0])}); chk.note("models")
        pipe.drop(R)

    kinds = ["uniform", "ball", "graded", "plane", "line", "clusters", "sphere", "jitter", "pairs"]
    jobs = [(seeds, (k, [150, 400, 900, 40][(i + r) % 4], chk.seed * 1000 + r * 20 + i, [1., 50., 1e-3][(r + i) % 3])) for r in range(10 if chk.thorough else 1) for i, k in enumerate(kinds)]
    cs = meshgen.cases("P24", chk.seed, 40 if chk.thorough else 5, must=({"model": "nested", "split": False}, {"model": "stack2", "split": True}, {"model": "sphere"}), dear=.2)
    for c in cs: c.cfg = dict(c.cfg); c.cfg["GENERATE_EXODUS_FILE"] = ""
    chk.parallel(lambda j: j[0](j[1]), [(model, c) for c in cs] + jobs)
    chk.assumptions.append("the Exodus library is not installed: a stand-in records the calls and refuses those out of order; the binary file itself is not produced")


if __name__ == "__main__": fw.main("P24", body)
