"""P05: the spatial search structures against a linear scan."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import fw, harness


def body(chk):
    chk.rule = "case = one tree built point by point (or in bulk) whose answers were compared with a linear scan at many sizes, after balancing and after renumbering"
    exe = chk.b.exe("inline", os.path.join(fw.VERIF, "src", "h_spatial.cpp"))
    exk = harness.optional(chk, "inline", "h_kdflat.cpp")
    n = 24 if chk.thorough else 8; reps = 120 if chk.thorough else 36
    jobs = [(exe, (chk.seed * 100 + i, reps, 20000 if chk.thorough else 5000), "tree%d" % i) for i in range(n)]
    if exk: jobs += [(exk, (chk.seed * 100 + i, reps * 2), "flat%d" % i) for i in range(n // 2)]
    chk.parallel(lambda j: harness.run(chk, j[0], j[1], j[2], cpu=150), jobs)


if __name__ == "__main__": fw.main("P05", body)
