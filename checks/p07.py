"""P07: the spheres cover the surface, the sharp edges and the corners"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import fw, meshgen, oracle


def body(chk):
    chk.rule = "case = one complete mesher run whose result files were judged; distinct by model, configuration, orientation, input layout and random seed"
    meshgen.body(chk, [lambda R, m, rng: oracle.o_cover(R, m, rng, 80000 if chk.thorough else 40000)], n_quick=12, must=(
        {"model": "plus"}, {"model": "cyl"}, {"model": "sphereinbox", "split": False}, {"model": "hullr", "sizing": "point"}, {"model": "ridge"}, {"model": "quad"}))


if __name__ == "__main__": fw.main("P07", body)
