"""P17: random streams and samplers: range, distribution tests, independence of threads, reproducibility."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import fw, harness


def body(chk):
    chk.rule = "case = one sampler or stream configuration (seed, dimension, domain, weights) whose draws were tested; thresholds are 7 standard deviations"
    exe = chk.b.exe("inline", os.path.join(fw.VERIF, "src", "h_random.cpp"))
    exf = chk.b.exe("shim", os.path.join(fw.VERIF, "src", "h_random.cpp"))
    n = 48 if chk.thorough else 8
    jobs = [(exe if i % 4 else exf, (chk.seed * 1000 + i, 60 if chk.thorough else 20), "rnd%d" % i, {"VC_SEED": str(chk.seed * 7919 + i * 104729 + 1)}) for i in range(n)]
    chk.parallel(lambda j: harness.run(chk, j[0], j[1], j[2], cpu=200, env=j[3]), jobs)


if __name__ == "__main__": fw.main("P17", body)
