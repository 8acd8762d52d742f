#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the file stays uniform)."""
import json, os
S = "src/Meshing/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": [S + f for f in files], "mechanism": [{"name": n, "where": S + w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": S + w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("P01", "Meshing a valid model never performs a memory error or undefined behaviour",
  "For every closed, conforming input surface and every valid configuration (threads, radii, Lipschitz constant, angle, sizing file, monitoring points, several input files; the angle threshold leaves only gently bent edges, up to about 30 degrees, unprotected), a run of the mesher reads and writes only live memory inside its bounds, never uses freed or uninitialised memory to decide anything, and executes no operation undefined by the C++ standard. The run ends by itself with exit status 0 after writing its result files.",
  ["inputs", "configurations"], "all valid models x all valid configurations x all random seeds",
  "The tests run 5 models with an ordinary build and look at the exit status: a silent overflow, stale read or undefined cast passes, and closed sharp loops, sizing files, several inputs or needle-shaped facets are not among them.",
  ["MeshingVoroCrust.cpp", "MeshingVoroCrustSampler.cpp", "MeshingVoronoiMesher.cpp", "MeshingSmartTree.cpp", "MeshingPolyMesh.cpp"],
  [("capacity-doubling arrays", "MeshingMemoryHandler.cpp:add_entry"), ("tree storage growth and empty-tree guards", "MeshingSmartTree.cpp:add_tree_point"),
   ("counted cell/face/corner arrays of the Voronoi stage", "MeshingVoronoiMesher.cpp:generate_3d_voronoi_mesh"), ("active pools of the sphere stages", "MeshingVoroCrustSampler.cpp:refine_active_pool")],
  ["AddressSanitizer/UBSan reports of vc_mesh", "valgrind memcheck reports of vc_mesh", "exit status and result files"])
p("P02", "Malformed, missing or truncated input files are survived safely",
  "Whatever bytes the control file, OBJ file, sizing file or seeds file contain - including missing files, empty files, short lines, blank lines, non-numeric fields and out-of-range indices - reading them performs no memory error and no undefined behaviour and ends promptly. A file that cannot be read as what it should be (missing value, short row, index out of range, non-positive size, no vertices, faces or seeds) is refused with an error status rather than meshed, also when the seeds do not bound the cells to be meshed. A file with only cosmetic differences (blank lines, comments, extra keywords, CRLF, v/vt/vn references, whitespace) is read exactly like the plain one. Well-formed files that describe an open or self-intersecting surface are outside this property.",
  ["inputs", "fault_sequences"], "all byte contents of the four kinds of input file",
  "The tests only feed well-formed files written by the authors.",
  ["MeshingVoroCrust.cpp", "MeshingPolyMesh.cpp", "MeshingSmartTree.cpp", "MeshingOptionParser.h", "vc_mesh.cxx"],
  [("keyword parsing of the control file", "MeshingVoroCrust.cpp:execute"), ("OBJ reader", "MeshingPolyMesh.cpp:read_input_obj_file"),
   ("sizing reader", "MeshingSmartTree.cpp:load_tree_csv"), ("seeds reader", "MeshingVoroCrust.cpp:read_seeds_csv")],
  ["sanitizer reports and termination of vc_mesh on generated hostile files", "clean.obj for cosmetic variants"])
p("P03", "Parallel meshing has no data race",
  "With any number of threads and any interleaving of them, no two threads access the same memory location concurrently with at least one write unless both accesses are synchronised. This holds for every parallel phase: sphere sizing, sampling, refinement, Lipschitz limiting, interior seeding, Voronoi cell construction and saving.",
  ["schedules", "inputs"], "all thread counts, all interleavings, all valid models",
  "The tests run two 4-thread cases without a race detector on whatever schedule the machine happens to give; a race only shows as a rarely different mesh.",
  ["MeshingVoroCrustSampler.cpp", "MeshingVoronoiMesher.cpp", "MeshingSpheresMethods.cpp", "MeshingSmartTree.cpp"],
  [("parallel sampling of the active pool", "MeshingVoroCrustSampler.cpp:sample_active_pool"), ("per-thread samplers", "MeshingVoroCrustSampler.cpp:MeshingVoroCrustSampler"),
   ("parallel interior front", "MeshingVoronoiMesher.cpp:generate_interior_seeds"), ("parallel Lipschitz pass", "MeshingVoronoiMesher.cpp:impose_lipschitz_continuity"),
   ("parallel cell construction", "MeshingVoronoiMesher.cpp:generate_3d_voronoi_mesh")],
  ["ThreadSanitizer reports under a fully visible OpenMP runtime that injects delays"])
p("P04", "Results are reproducible and independent of thread scheduling",
  "Two runs on the same input files with the same configuration, the same thread count and the same random seed write byte-identical result files. In particular the order in which the threads of a parallel phase execute or finish never changes a sphere, a seed, a region id, a cell or a connection.",
  ["schedules", "inputs", "configurations"], "all interleavings of the parallel phases, all valid models and thread counts",
  "The tests compare only one gold file for one model and never two schedules of the same run.",
  ["MeshingVoroCrustSampler.cpp", "MeshingVoronoiMesher.cpp", "MeshingRandomSampler.cpp", "MeshingSpheresMethods.cpp"],
  [("one random stream per thread", "MeshingRandomSampler.cpp:MeshingRandomSampler(size_t)"), ("fixed blocks of work per thread id", "MeshingVoroCrustSampler.cpp:sample_active_pool"),
   ("serial merge of per-thread results", "MeshingVoronoiMesher.cpp:generate_interior_seeds")],
  ["all files written by vc_mesh, byte for byte, across forced schedules"])
p("P05", "Spatial search structures answer exactly like a linear scan",
  "For every sequence of insertions (balanced or not, with duplicate, collinear or clustered points) and every query, the nearest point, the nearest point outside an exclusion list, the set of points within a radius and the nearest point across a crease are the ones a linear scan over all inserted points finds, each reported once. Coordinates, normals, attributes and the neighbour graph stored with a point are returned unchanged however much the structure has grown or been rebalanced.",
  ["inputs", "histories"], "all point sets, insertion orders, rebalancing points and queries",
  "Nothing tests the search structure directly; a wrong prune only makes the mesh subtly different.",
  ["MeshingSmartTree.cpp", "MeshingSmartTree.h"],
  [("branch pruning", "MeshingSmartTree.cpp:kd_tree_get_closest_seed"), ("range search", "MeshingSmartTree.cpp:kd_tree_get_seeds_in_sphere"), ("rebalancing on growth", "MeshingSmartTree.cpp:add_tree_point"),
   ("balanced build", "MeshingSmartTree.cpp:kd_tree_build_balanced"), ("crease-aware searches", "MeshingSmartTree.cpp:kd_tree_get_closest_non_smooth_seed")],
  ["results of the public query methods against an oracle over the inserted points"])
p("P06", "Every protecting sphere lies on its feature and obeys the sizing contract",
  "Every corner sphere is centred at a sharp corner, every edge sphere on a sharp edge and every surface sphere on a face of the input model, and every such sphere has a positive radius no larger than the maximum radius the user gave. When a sizing file is given no sphere is larger than the size it prescribes there grown at the Lipschitz rate, and for any two overlapping spheres of one kind the radii differ by at most the Lipschitz constant times the distance between their centres.",
  ["inputs", "configurations"], "all valid models, radii, Lipschitz constants, angles and sizing files",
  "No test reads the sphere files; a radius that is too large only shows as an invalid mesh on other models.",
  ["MeshingVoroCrustSampler.cpp", "MeshingSpheresMethods.cpp"],
  [("corner sphere sizing", "MeshingVoroCrustSampler.cpp:generate_corner_spheres"), ("edge sphere sampling", "MeshingVoroCrustSampler.cpp:generate_edge_spheres"),
   ("surface sphere sampling and sizing", "MeshingVoroCrustSampler.cpp:sample_active_pool"), ("Lipschitz limiting", "MeshingSpheresMethods.cpp:impose_lipschitz_continuity")],
  ["corner_spheres.csv, edges_spheres.csv, surface_spheres.csv", "radii implied by seeds.csv"])
p("P07", "The protecting spheres cover the whole surface, its edges and its corners",
  "When the sphere stages finish, every point of the input surface lies strictly inside at least one sphere, every point of a sharp edge lies inside an edge or corner sphere, and every sharp corner has its own sphere. The cover has the margin the later stages need: a surface point is inside an edge or corner sphere or within sqrt(1-0.4^2) of the radius of a surface sphere, a sharp-edge point inside a corner sphere or within sqrt(1-0.5^2) of the radius of an edge sphere. No sphere centre lies deep inside another sphere of its kind, so the sampling stays well spaced.",
  ["inputs", "configurations"], "all valid models and configurations, all points of the surface",
  "Coverage is a statement about every point of a continuum; the tests look at none.",
  ["MeshingVoroCrustSampler.cpp", "MeshingSpheresMethods.cpp"],
  [("refinement of uncovered pieces until none is left", "MeshingVoroCrustSampler.cpp:refine_active_pool"), ("edge refinement", "MeshingVoroCrustSampler.cpp:refine_active_pool_edges"),
   ("coverage predicate", "MeshingSpheresMethods.cpp:face_covered")],
  ["sphere CSV files against dense samples of the input surface and of its sharp edges"])
p("P08", "The output surface is watertight, conforming and topologically the input",
  "The reconstructed surface mesh is a triangulation of the sphere centres in which every edge has as many triangles as the input surface has there (two on manifold models), with no duplicate, degenerate or folded triangle, and it has the Euler characteristic and the number of components of the input. Its vertices lie on the input surface, sharp edges and corners are reproduced, and on planar-faced models it covers exactly the area of the input.",
  ["inputs", "configurations"], "all valid models and configurations",
  "No test inspects the surface mesh; a hole, a missing sliver or an extra triangle passes.",
  ["MeshingPolyMesh.cpp", "MeshingVoroCrustSampler.cpp"],
  [("triangulation from sphere triples", "MeshingVoroCrustSampler.cpp:generate_surface_seeds"), ("final validation", "MeshingVoroCrustSampler.cpp:validate_surface_mesh"), ("sliver removal by shrinking", "MeshingSpheresMethods.cpp:resolve_sliver")],
  ["surface_mesh.obj against the input model"])
p("P09", "Surface seeds are mirrored pairs on the spheres and inside none of them",
  "For every triangle of the reconstructed surface there are exactly two seeds, one on each side, mirror images of each other in the plane of that triangle and lying on the three spheres centred at its vertices and no larger than the smallest of them. Seeds on one side of the surface never come closer to each other than a hundredth of their spheres' radius. No seed of any kind, in the final output, lies strictly inside any protecting sphere.",
  ["inputs", "configurations"], "all valid models and configurations",
  "A seed inside a sphere or a displaced pair destroys the conforming interface without any crash.",
  ["MeshingVoroCrustSampler.cpp", "MeshingVoronoiMesher.cpp", "MeshingSpheresMethods.cpp"],
  [("seed pair construction", "MeshingVoroCrustSampler.cpp:generate_surface_seeds"), ("intersection of three spheres", "MeshingGeometricalMethods.cpp:get_power_vertex"), ("rejection of interior seeds in spheres", "MeshingVoronoiMesher.cpp:generate_interior_seeds")],
  ["seeds.csv, surface_mesh.obj, sphere CSV files"])
p("P10", "Every seed and cell carries the region it lies in",
  "Region 0 is given exactly to the seeds outside the model, and seeds lying in different regions enclosed by the input surface always carry different region ids. In the mesh file every region of the model, including nested, multi-material and multi-file ones, appears as exactly one region id: surface patches are one region exactly when a chain of neighbouring interior cells joins them.",
  ["inputs", "configurations"], "all valid models: nested cavities, non-manifold partitions, several files, any face orientation",
  "The tests have one multi-region model and never look at region ids.",
  ["MeshingVoroCrustSampler.cpp", "MeshingVoroCrust.cpp", "MeshingVoronoiMesher.cpp"],
  [("colouring of surface seeds", "MeshingVoroCrustSampler.cpp:color_surface_seeds"), ("region of interior seeds", "MeshingVoronoiMesher.cpp:generate_interior_seeds"), ("merging of patches of one region", "MeshingVoroCrust.cpp:generate_explicit_mesh")],
  ["region column of seeds.csv and of mesh.vcg against winding numbers of the input"])
p("P11", "Interior seeds fill every region at the requested spacing",
  "Interior seeds lie inside the model only, no interior seed lies closer to another seed than that seed's size, and seed sizes never exceed the maximum radius (for surface seeds: nor the smallest of their three spheres) nor vary faster than the Lipschitz constant. The seeds leave no void: every point of the interior is within a small multiple of the local size of some seed or sphere, and where a sizing file is given the sizes follow it.",
  ["inputs", "configurations"], "all valid models, radii, Lipschitz constants, sizing files and thread counts",
  "The tests compare nothing about seeds; missing or crowded seeds still give a file.",
  ["MeshingVoronoiMesher.cpp"],
  [("advancing front of seeds", "MeshingVoronoiMesher.cpp:generate_interior_seeds"), ("conflict tests within a front", "MeshingVoronoiMesher.cpp:generate_interior_seeds"), ("Lipschitz limiting of seed sizes", "MeshingVoronoiMesher.cpp:impose_lipschitz_continuity")],
  ["seeds.csv, sphere CSV files, sizing file"])
p("P12", "The written cells are the true Voronoi cells of the seeds",
  "For every set of seeds - generated or supplied by the user, uniform or strongly graded - every written cell has the seed position as centre and the volume of the seed's true Voronoi cell, and the written connections are exactly the facets between neighbouring cells, each with the true area, the point midway between the two seeds and the unit normal pointing from the first cell to the second. The result does not depend on the order of the seeds or the number of threads.",
  ["inputs", "configurations", "schedules"], "all seed sets in general position with bounded meshed cells",
  "One gold file for one model is compared; a missed neighbour in another arrangement is not.",
  ["MeshingVoronoiMesher.cpp"],
  [("cell clipping by nearby seeds", "MeshingVoronoiMesher.cpp:get_3d_Voronoi_cell"), ("vertex trimming", "MeshingVoronoiMesher.cpp:trim_vertex"), ("merging of corners and faces over cells", "MeshingVoronoiMesher.cpp:generate_3d_voronoi_mesh"), ("geometry of cells and connections", "MeshingVoronoiMesher.cpp:save_vcg_file_pflotran")],
  ["mesh.vcg against an independent Voronoi diagram of the same seeds"])
p("P13", "The mesh conserves volume and closes every cell",
  "The cells of each region add up to exactly the volume of that region on planar-faced models, every cell is closed (its outward face areas sum to zero and reproduce its volume), ids are consecutive, and every connection refers to existing cells and is listed once. Boundary and inter-region faces lie on the reconstructed surface and add up to its area, so the mesh conforms to the model.",
  ["inputs", "configurations"], "all valid models and configurations",
  "The tests check no conservation law of the output mesh.",
  ["MeshingVoronoiMesher.cpp", "MeshingVoroCrust.cpp"],
  [("saving of cells and connections", "MeshingVoronoiMesher.cpp:save_vcg_file_pflotran"), ("assembly of faces per cell", "MeshingVoroCrust.cpp:generate_explicit_mesh")],
  ["mesh.vcg, surface_mesh.obj"])
p("P14", "Meshing from a saved seeds file reproduces the mesh",
  "The seeds file written by a run loses no information: giving it back as input yields a mesh with the same cells, volumes and connections as the original run produced, for every model and thread count. A seeds file may list the seeds in any order and any number of them; the mesh is that of the listed seeds, with cells in the listed order.",
  ["inputs", "configurations", "histories"], "all seeds files produced by runs, and arbitrary user-made ones",
  "No test meshes from a seeds file.",
  ["MeshingVoroCrust.cpp", "MeshingVoronoiMesher.cpp"],
  [("seeds writer with full precision", "MeshingVoronoiMesher.cpp:save_spheres_csv"), ("seeds reader", "MeshingVoroCrust.cpp:read_seeds_csv"), ("mesh from seeds", "MeshingVoroCrust.cpp:generate_mesh_from_seeds_file")],
  ["mesh.vcg of the two runs"])
p("P15", "Monitoring points are honoured",
  "Every admissible imposed monitoring point (inside the model, outside every protecting sphere, and not crowded by another one) becomes a seed at exactly the requested position with the region it lies in, and inadmissible ones are left out without disturbing anything else. An imposed seed has the requested size, no generated seed lies closer to it than that, and for every requested point the closest seed of the mesh is reported. Imposing or generating monitoring points leaves every other guarantee of the seeds and of the mesh intact.",
  ["inputs", "configurations"], "all sets of monitoring points, including points outside the model, near the surface and duplicates",
  "One test runs one file of points and only looks at the exit status.",
  ["MeshingVoroCrust.cpp", "MeshingVoronoiMesher.cpp"],
  [("validation and insertion of imposed points", "MeshingVoronoiMesher.cpp:impose_interior_seeds"), ("reading and writing of points", "MeshingVoroCrust.cpp:generate_interior_seeds")],
  ["monitoring_points.csv, seeds.csv, mesh.vcg"])
p("P16", "Reading, welding and merging models preserves their geometry",
  "Reading an OBJ model keeps every vertex position to full precision and every triangle with its orientation; vertices closer than the weld tolerance are merged, others never, and exactly the triangles that collapse are dropped. Merging several files gives the union of their triangles with shared vertices identified, and writing and re-reading a model changes nothing.",
  ["inputs", "histories"], "all OBJ models and all lists of input files",
  "The tests read five clean files and check nothing about what was read.",
  ["MeshingPolyMesh.cpp", "MeshingVoroCrust.cpp"],
  [("OBJ reader and writer", "MeshingPolyMesh.cpp:read_input_obj_file"), ("welding", "MeshingPolyMesh.cpp:weld_nearby_points"), ("merging", "MeshingVoroCrust.cpp:execute")],
  ["clean.obj, model_combined.obj, arrays returned by the reader"])
p("P17", "Random sampling is uniform, in range and independent per thread",
  "Uniform numbers lie in [0,1), and points sampled from a box, the unit sphere, a simplex or a discrete distribution are uniform on exactly that set, in any dimension and for any weights. Different threads draw from different, uncorrelated streams, and equal seeds give equal streams.",
  ["inputs", "histories"], "all seeds, dimensions, domains and draw counts",
  "Nothing tests the generator; a bias only changes the mesh statistics.",
  ["MeshingRandomSampler.cpp"],
  [("subtract-with-borrow generator", "MeshingRandomSampler.cpp:generate_uniform_random_number"), ("simplex sampling by sorted gaps", "MeshingRandomSampler.cpp:sample_uniformly_from_simplex"), ("discrete sampling by bisection", "MeshingRandomSampler.cpp:sample_uniformly_from_discrete_cdf")],
  ["drawn numbers against range and distribution tests"])
p("P18", "Geometric primitives are correct for every configuration",
  "Projections onto a segment, line or triangle return the true nearest point and its distance, triangle areas and normals are the exact ones, and the point equidistant in power from two to four spheres has equal power to all of them. Angles, overlap tests, orthogonal components and sliver resolution agree with their mathematical definition for all positions, orientations and scales.",
  ["inputs"], "all point positions, orientations, scales and degenerate arrangements",
  "No test calls the primitives; the meshes exercise few of their branches.",
  ["MeshingGeometricalMethods.cpp", "MeshingSpheresMethods.cpp"],
  [("triangle projection", "MeshingGeometricalMethods.cpp:project_to_3d_triangle"), ("power vertices", "MeshingGeometricalMethods.cpp:get_power_vertex"), ("sliver resolution", "MeshingSpheresMethods.cpp:resolve_sliver"), ("coverage predicates", "MeshingSpheresMethods.cpp:point_covered")],
  ["results of the public methods against an independent computation"])
p("P19", "The linear solvers solve the system they are given",
  "The least-squares solver returns the minimiser for every full-rank system, and the sparse Cholesky routines factor every symmetric positive definite matrix, keep the factor exact under rank-one updates and under adding and removing rows in any sequence, and solve the corresponding system. A matrix that is not positive definite is reported as such.",
  ["inputs", "histories"], "all matrices, right-hand sides and sequences of updates",
  "The solver has no test in this repository.",
  ["MeshingLinearSolver.cpp"],
  [("Householder QR", "MeshingLinearSolver.cpp:householder"), ("sparse Cholesky", "MeshingLinearSolver.cpp:Cholesky_factorization"), ("updates", "MeshingLinearSolver.cpp:Cholesky_factorization_rank_one_update")],
  ["residuals and reconstructed matrices"])
p("P20", "Sharp features are found exactly, however the model is presented",
  "The sharp edges of a model are exactly the edges whose faces meet at an angle beyond the user's threshold or that do not have exactly two faces, and the sharp corners are exactly the points where those edges end, branch or turn beyond the threshold. The result is the same set of points and segments after renumbering vertices, reordering, cyclically rotating faces or reversing the orientation of whole pieces (faces joined through two-face edges), and after rotating, translating or scaling the model. The point clouds that guide the sphere sizes sample exactly these edges and the faces, each in proportion to its size and with its own direction or normal.",
  ["inputs", "configurations"], "all valid models, all angle thresholds, all renumberings and rigid motions",
  "The tests never inspect detected features and present each model one way.",
  ["MeshingVoroCrustSampler.cpp", "MeshingPolyMesh.cpp"],
  [("feature detection", "MeshingVoroCrustSampler.cpp:detect_features_generate_point_clouds_clean"), ("point clouds of faces and edges", "MeshingVoroCrustSampler.cpp:detect_features_generate_point_clouds_clean"), ("consistent orientation and watertightness", "MeshingPolyMesh.cpp:process_model")],
  ["returned corners and edges, corner_spheres.csv, point clouds"])
p("P21", "Growing arrays, sorting and stored tables keep their contents",
  "Arrays grown one entry at a time keep every earlier entry in order, sorting yields an ordered permutation that carries companion data along, and number parsing returns the value written. Point tables written to CSV and loaded again hold the same coordinates, normals and attributes in the same order.",
  ["inputs", "histories"], "all sequences of insertions, all arrays including equal, sorted and reversed ones",
  "Nothing tests these helpers directly although every stage relies on them.",
  ["MeshingMemoryHandler.cpp", "MeshingSmartTree.cpp"],
  [("array growth", "MeshingMemoryHandler.cpp:add_entry"), ("quicksort variants", "MeshingMemoryHandler.cpp:quicksort"), ("CSV writer and reader", "MeshingSmartTree.cpp:save_tree_csv")],
  ["array contents, files and reloaded tables"])
p("P22", "Voronoi queries of the point structure agree with the Voronoi diagram",
  "Trimming a ray from a seed yields the distance to the boundary of that seed's true Voronoi cell and the seed across it, and the cell, face and vertex queries return the true volume, facet areas, corners and neighbours. Neighbour search by random rays reports only true neighbours, each once.",
  ["inputs"], "all seed sets, rays and query points in general position",
  "These queries are exported by the library but no test calls them.",
  ["MeshingSmartTree.cpp"],
  [("ray trimming", "MeshingSmartTree.cpp:trim_spoke"), ("cell construction", "MeshingSmartTree.cpp:get_3d_Voronoi_cell"), ("neighbour search", "MeshingSmartTree.cpp:get_Voronoi_neighbors")],
  ["query results against an independent Voronoi diagram"])
p("P23", "What a run reports is what it wrote",
  "Every figure the program prints - settings in force, points and faces read, sharp features, spheres and their extreme radii, seeds, regions, cells, volumes, connections, monitoring points - agrees with the input and with the result files of that run, and the log file holds exactly what was printed. Optional result files are written exactly when requested, a control file means the same whatever the order, spacing, repetition (the last value counts) or company of its keys, and the exit status tells whether the work was done.",
  ["inputs", "configurations"], "all valid models, settings and control-file layouts",
  "Users judge a mesh by the printed figures and scripts by the exit status; the tests compare neither.",
  ["MeshingVoroCrust.cpp", "MeshingConsole.cpp", "MeshingVoronoiMesher.cpp", "MeshingVoroCrustSampler.cpp", "MeshingOptionParser.h", "vc_mesh.cxx"],
  [("control file", "MeshingVoroCrust.cpp:execute"), ("mesh statistics", "MeshingVoronoiMesher.cpp:save_vcg_file_pflotran"), ("console and log file", "MeshingConsole.cpp"), ("command line", "MeshingOptionParser.h:parse")],
  ["standard output, VoroCrustLog.txt, exit status and all result files"])
p("P24", "The Exodus file describes the same mesh",
  "When Exodus output is requested, the nodes, faces and cells handed to the Exodus library describe exactly the mesh of the .vcg file: one polygon per connection, its corners in order around it, in the plane midway between its two seeds and with the written area; one polyhedron per cell made of exactly its connections and enclosing the written volume; closed for seeds in general position; with counts, ids and order of calls that the library accepts. It is the same whether or not the .vcg file is requested too.",
  ["inputs", "configurations"], "all models and seed sets; builds with Exodus support",
  "The writer is not compiled in the default build and no test looks at polygons.",
  ["MeshingVoronoiMesher.cpp", "MeshingExodusIO.cpp", "MeshingVoroCrust.cpp"],
  [("polyhedral writer", "MeshingVoronoiMesher.cpp:save_exodus_file"), ("corner rings of the facets", "MeshingVoronoiMesher.cpp:generate_3d_voronoi_mesh"), ("faces of cells", "MeshingVoroCrust.cpp:generate_explicit_mesh")],
  ["calls recorded by a stand-in for the Exodus library"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q, ensure_ascii=True) + "\n")
if __name__ == "__main__":
    try:
        import jsonschema
        sc = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for q in P: jsonschema.validate(q, sc)
    except ImportError: pass
    for q in P: assert len(q["title"]) <= 80, q["id"]
    print(len(P), "properties")
