"""P13: the mesh conserves volume, closes every cell and conforms to the surface"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import fw, meshgen, oracle


def body(chk):
    chk.rule = "case = one complete mesher run whose result files were judged; distinct by model, configuration, orientation, input layout and random seed"
    meshgen.body(chk, [lambda R, m, rng: oracle.o_conserve(R, m)], n_quick=12, must=(
        {"model": "stack3", "split": False}, {"model": "frame"}, {"model": "quad", "split": True}, {"model": "hullr"}, {"model": "sphere"}, {"model": "nested", "split": False}))


if __name__ == "__main__": fw.main("P13", body)
