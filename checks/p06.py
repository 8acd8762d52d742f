"""P06: protecting spheres lie on their features and obey the sizing contract"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import fw, meshgen, oracle


def body(chk):
    chk.rule = "case = one complete mesher run whose result files were judged; distinct by model, configuration, orientation, input layout and random seed"
    meshgen.body(chk, [lambda R, m, rng: oracle.o_spheres(R, m, R.case.sizing)], n_quick=12, must=(
        {"model": "lshape", "sizing": "point"}, {"model": "box", "sizing": "many"}, {"model": "quad", "sizing": "point", "split": False}, {"model": "sphere", "sizing": "point"},
        {"model": "hullr", "cfg": {"LIP_CONST": 0.2}}, {"model": "torus", "sizing": None}))


if __name__ == "__main__": fw.main("P06", body)
