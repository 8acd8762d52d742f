"""P09: surface seeds are mirrored pairs on the spheres and inside none of them"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import fw, meshgen, oracle


def body(chk):
    chk.rule = "case = one complete mesher run whose result files were judged; distinct by model, configuration, orientation, input layout and random seed"
    meshgen.body(chk, [lambda R, m, rng: oracle.o_pairs(R, m)], n_quick=12, must=(
        {"model": "torus"}, {"model": "stack3", "split": False}, {"model": "hullr", "sizing": "point"}, {"model": "sphere"}, {"model": "lshape"}, {"model": "quad", "split": False}))


if __name__ == "__main__": fw.main("P09", body)
