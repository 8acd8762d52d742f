"""P21: growing arrays, sorting, number parsing and stored tables against a reference copy"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import fw, harness


def body(chk):
    chk.rule = "case = one array history, sorted array or table written and read back"
    exe = chk.b.exe("inline", os.path.join(fw.VERIF, "src", "h_tables.cpp"))
    n = 32 if chk.thorough else 8
    jobs = [(exe, (chk.seed * 1000 + i, 3000 if chk.thorough else 300), "tab%d" % i, {"VC_SEED": str(chk.seed * 7919 + i * 104729 + 1)}) for i in range(n)]
    chk.parallel(lambda j: harness.run(chk, j[0], j[1], j[2], cpu=300, env=j[3]), jobs)


if __name__ == "__main__": fw.main("P21", body)
