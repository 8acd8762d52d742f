"""P19: least squares and sparse Cholesky against dense reference computations."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import fw, harness


def body(chk):
    chk.rule = "case = one system (or one history of factor updates) whose solution and factor were compared with a dense reference"
    exe = chk.b.exe("inline", os.path.join(fw.VERIF, "src", "h_linsolve.cpp"))
    n = 32 if chk.thorough else 8
    jobs = [(exe, (chk.seed * 1000 + i, 20000 if chk.thorough else 3000), "lin%d" % i) for i in range(n)]
    chk.parallel(lambda j: harness.run(chk, j[0], j[1], j[2], cpu=200), jobs)


if __name__ == "__main__": fw.main("P19", body)
