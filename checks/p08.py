"""P08: the reconstructed surface is watertight, conforming and topologically the input"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import fw, meshgen, oracle


def body(chk):
    chk.rule = "case = one complete mesher run whose result files were judged; distinct by model, configuration, orientation, input layout and random seed"
    meshgen.body(chk, [lambda R, m, rng: oracle.o_surface(R, m, rng)], n_quick=12, must=(
        {"model": "torus"}, {"model": "quad", "split": False}, {"model": "frame"}, {"model": "hullr"}, {"model": "sphere"}, {"model": "stack3", "split": True}))


if __name__ == "__main__": fw.main("P08", body)
