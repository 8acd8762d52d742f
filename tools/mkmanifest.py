#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every check that exists is claimed, every other property is listed as not applicable."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "P01": ("AddressSanitizer/UBSan mesher runs and harnesses, memory-pattern differential runs", "No memory error, UB or dependence on uninitialised memory in the executions explored; other inputs are unproven."),
 "P02": ("AddressSanitizer/UBSan runs on generated hostile input files", "Memory-safe and terminating on the hostile files explored, cosmetic variants read alike."),
 "P03": ("ThreadSanitizer under a fully instrumented OpenMP runtime with injected delays", "No race in the parallel phases executed: happens-before detection covers unseen interleavings of the same accesses, not other accesses."),
 "P04": ("byte comparison of complete runs under forced thread schedules", "Identical bytes under the forced schedules and repeated runs explored."),
 "P05": ("online oracle: every answer compared with a linear scan", "Exact comparison on the point sets and histories explored."),
 "P06": ("offline oracle over result files of mesher runs", "Spheres, features and sizes recomputed from the input model for every run explored."),
 "P07": ("offline oracle: dense coverage samples of result files", "Coverage judged on some 10^4-10^5 sample points per run, biased to edges, corners and triangle interiors farthest from spheres."),
 "P08": ("offline oracle over the reconstructed surface of mesher runs", "Topology, area, position and feature conformity recomputed for every run explored."),
 "P09": ("offline oracle over seeds and spheres of mesher runs", "Mirror symmetry, incidence and emptiness recomputed for every seed of every run explored."),
 "P10": ("offline oracle: winding numbers of the input model", "Every seed and cell of every run explored is classified independently."),
 "P11": ("offline oracle over seeds and sizing of mesher runs", "Spacing, sizing and void bounds recomputed for every run explored."),
 "P12": ("differential oracle: independent Voronoi diagram of the same seeds", "Cells, volumes and connections compared with qhull for every seed set explored."),
 "P13": ("conservation monitor over the written mesh", "Volume, closedness and interface area balances for every run explored."),
 "P14": ("differential runs: mesh from the saved seeds against the original mesh", "Same cells and connections for the histories explored."),
 "P15": ("offline oracle over runs with monitoring points", "Admissibility of every point recomputed independently for the runs explored."),
 "P16": ("online oracle over the OBJ reader, welder and merger", "Every triangle and vertex compared for the models explored."),
 "P17": ("statistical monitors of the random streams", "Range is exact; uniformity and independence are tests at 7 standard deviations with fixed seeds."),
 "P18": ("online oracle: extended-precision recomputation", "Agreement on the configurations explored within stated tolerances."),
 "P19": ("online oracle: residuals and reconstructed matrices", "Agreement on the systems and update histories explored."),
 "P20": ("metamorphic runs and an independent feature detector", "Detected corners and edges equal the reference on the models and presentations explored."),
 "P21": ("online oracle: reference copies of arrays and tables", "Exact comparison on the histories explored."),
 "P22": ("online oracle: brute-force half-space clipping", "Agreement on the seed sets and rays explored."),
 "P24": ("recorded library calls (stand-in for Exodus) against the .vcg file", "Agreement on the meshes explored; the binary file itself is not produced."),
 "P23": ("offline checker of the printed report against the result files, metamorphic control files", "Agreement on the runs and control files explored."),
}
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(R, "checks", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "python3-vt checks/%s.py" % i.lower(), "thorough_cmd": "python3-vt checks/%s.py thorough" % i.lower(),
                       "evidence_file": "evidence/%s.json" % i, "technique": "runtime monitoring: " + T[i][0], "level": "exploration", "level_note": T[i][1]})
    else: na.append({"property": i, "reason": "no check yet in this commit (planned: %s)" % T[i][0]})
m = {"version": 1, "setup_cmd": "python3-vt tools/setup.py",
     "hooks": {"guard": "VC_VERIF_HOOKS", "enable": "no hook was needed: the monitors use the public classes, the result files and an interposed OpenMP runtime; the guard is reserved and unused", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Every check compiles /repo/src/Meshing afresh into a temporary directory (about 7-15 s) and removes it. known_findings.json lists recorded and fixed defects."}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except (ImportError, OSError): pass
print(len(checks), "checks,", len(na), "not claimed")
