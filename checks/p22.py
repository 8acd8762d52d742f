"""P22: Voronoi queries of the point structure against brute-force cells"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import fw, harness


def body(chk):
    chk.rule = "case = one seed set whose rays, neighbours, cells, facets or vertices were compared with brute-force half-space clipping"
    exe = chk.b.exe("inline", os.path.join(fw.VERIF, "src", "h_voronoi.cpp"))
    n = 32 if chk.thorough else 8
    jobs = [(exe, (chk.seed * 1000 + i, 5000 if chk.thorough else 500), "vor%d" % i, {"VC_SEED": str(chk.seed * 7919 + i * 104729 + 1)}) for i in range(n)]
    chk.parallel(lambda j: harness.run(chk, j[0], j[1], j[2], cpu=300, env=j[3]), jobs)


if __name__ == "__main__": fw.main("P22", body)
