"""P11: interior seeds fill the regions at the requested spacing"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import fw, meshgen, oracle


def body(chk):
    chk.rule = "case = one complete mesher run whose result files were judged; distinct by model, configuration, orientation, input layout and random seed"
    meshgen.body(chk, [lambda R, m, rng: oracle.o_interior(R, m, rng, R.case.sizing, cover_bound=3.0)], n_quick=15, must=(
        {"model": "hexprism", "sizing": "core"}, {"model": "octa", "cfg": {"LIP_CONST": 0.2}, "sizing": "core"}, {"model": "nested", "sizing": "core"}, {"model": "slab", "sizing": "point"}, {"model": "ushape", "sizing": "point"}, {"model": "nested", "sizing": None}, {"model": "box", "sizing": "many"}, {"model": "sphere"}, {"model": "octa", "cfg": {"LIP_CONST": 0.2}}))


if __name__ == "__main__": fw.main("P11", body)
