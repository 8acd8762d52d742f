From d463e603fbe89e1716eaed259237db4d7447d18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:01 +0000
Subject: [PATCH 01/23] fix: guard nearest non-smooth point queries against an
 empty tree

A model whose sharp edges form closed loops has no sharp corners, so the
corner-sphere tree is empty while edge spheres are generated; the query
dereferenced a null point array.
---
 src/Meshing/MeshingSmartTree.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Meshing/MeshingSmartTree.cpp b/src/Meshing/MeshingSmartTree.cpp
index fbb3e5d..733dc7d 100644
--- a/src/Meshing/MeshingSmartTree.cpp
+++ b/src/Meshing/MeshingSmartTree.cpp
@@ -655,6 +655,7 @@ int MeshingSmartTree::get_closest_tree_point(double* x, size_t num_exculded_tree
 	#pragma region Closest Neighbor Search using a tree:
 
 	closest_tree_point = _num_points;
+	if (_num_points == 0) return 1;
 	kd_tree_get_closest_seed(x, 0, _tree_origin, num_exculded_tree_points, exculded_tree_points, closest_tree_point, closest_distance);
 	return 0;
 
@@ -665,6 +666,7 @@ int MeshingSmartTree::get_closest_tree_point(double* x, size_t num_exculded_tree
 int MeshingSmartTree::get_closest_non_smooth_tree_point(double* x, double feature_TOL, double smoothness_threshold, size_t &closest_tree_point, double &closest_distance)
 {
 	closest_tree_point = _num_points;
+	if (_num_points == 0) return 1;
 	kd_tree_get_closest_non_smooth_seed(x, feature_TOL, smoothness_threshold, 0, _tree_origin, closest_tree_point, closest_distance);
 	return 0;
 }
@@ -673,6 +675,7 @@ int MeshingSmartTree::get_closest_non_smooth_tree_point(double* x, double featur
 int MeshingSmartTree::get_closest_non_smooth_tree_point(double* x, double* x_normal, double smoothness_threshold, size_t& closest_tree_point, double& closest_distance)
 {
 	closest_tree_point = _num_points;
+	if (_num_points == 0) return 1;
 	kd_tree_get_closest_non_smooth_seed(x, x_normal, smoothness_threshold, 0, _tree_origin, closest_tree_point, closest_distance);
 	return 0;
 }
@@ -682,6 +685,7 @@ int MeshingSmartTree::get_closest_non_smooth_tree_point(double* x, double* x_nor
 int MeshingSmartTree::get_closest_non_smooth_tree_point(double* x, size_t num_normals, double** normals, double smoothness_threshold, size_t &closest_tree_point, double &closest_distance)
 {
 	closest_tree_point = _num_points;
+	if (_num_points == 0) return 1;
 	kd_tree_get_closest_non_smooth_seed(x, num_normals, normals, smoothness_threshold, 0, _tree_origin, closest_tree_point, closest_distance);
 	return 0;
 }
@@ -691,6 +695,7 @@ int MeshingSmartTree::get_closest_non_smooth_tree_point(double* x, size_t num_no
 int MeshingSmartTree::get_closest_non_smooth_tree_edge_point(double* x, double feature_TOL, double smoothness_threshold, size_t &closest_tree_point, double &closest_distance)
 {
 	closest_tree_point = _num_points;
+	if (_num_points == 0) return 1;
 	kd_tree_get_closest_non_smooth_edge_seed(x, feature_TOL, smoothness_threshold, 0, _tree_origin, closest_tree_point, closest_distance);
 	return 0;
 }
-- 
2.43.0


From c23846b34c76b4643bf5193f1968874c30e4a49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:42 +0000
Subject: [PATCH 02/23] fix: data race between samples of one batch in
 sample_active_pool

A thread tested its sample against the spheres of lower-numbered threads
while those threads were still writing radii and coverage flags, so the
accepted spheres depended on thread timing and on stale radii.
---
 src/Meshing/MeshingVoroCrustSampler.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/Meshing/MeshingVoroCrustSampler.cpp b/src/Meshing/MeshingVoroCrustSampler.cpp
index eb6b72b..0611f9c 100644
--- a/src/Meshing/MeshingVoroCrustSampler.cpp
+++ b/src/Meshing/MeshingVoroCrustSampler.cpp
@@ -2670,14 +2670,7 @@ int MeshingVoroCrustSampler::sample_active_pool(size_t num_samples, size_t num_p
 #endif
 		if (!covered_sample[thread_id])
 		{
-			for (size_t jthread = 0; jthread < thread_id; jthread++)
-			{
-				if (covered_sample[jthread]) continue;
-				covered_sample[thread_id] = _smethods.point_covered(new_sphere[thread_id], new_sphere[jthread], coverage_radius_ratio);
-				if (covered_sample[thread_id]) break;
-			}
-
-			if (!covered_sample[thread_id])
+			if (true)
 			{
 				size_t sphere_face_index = new_sphere_face[thread_id];
 
@@ -2732,6 +2725,17 @@ int MeshingVoroCrustSampler::sample_active_pool(size_t num_samples, size_t num_p
 		}
 	}
 
+	// a sample covered by another one of this batch is rejected once all radii are known
+	for (size_t thread_id = 1; thread_id < _num_threads; thread_id++)
+	{
+		for (size_t jthread = 0; jthread < thread_id; jthread++)
+		{
+			if (covered_sample[thread_id]) break;
+			if (covered_sample[jthread]) continue;
+			covered_sample[thread_id] = _smethods.point_covered(new_sphere[thread_id], new_sphere[jthread], coverage_radius_ratio);
+		}
+	}
+
 #if defined USE_OPEN_MP
 	end_omp_sz = omp_get_wtime();
 	_sizing_time += end_omp_sz - start_omp_sz;
-- 
2.43.0


From b0e93bd477cf0b1da6c5ee52d49b4295743f4888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:42 +0000
Subject: [PATCH 03/23] fix: data race on the query point in
 MeshingVoronoiMesher::impose_lipschitz_continuity

All iterations of the parallel loop shared one buffer for the query point, so
with several threads spheres got the neighbours of some other sphere.
---
 src/Meshing/MeshingVoronoiMesher.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/Meshing/MeshingVoronoiMesher.cpp b/src/Meshing/MeshingVoronoiMesher.cpp
index ab2160c..d880d0f 100644
--- a/src/Meshing/MeshingVoronoiMesher.cpp
+++ b/src/Meshing/MeshingVoronoiMesher.cpp
@@ -3076,7 +3076,6 @@ int MeshingVoronoiMesher::impose_lipschitz_continuity(size_t num_spheres, size_t
 {
 	#pragma region Impose Lipschitz Continuity:
 	
-	double* x = new double[num_dim];
 	size_t* num_neighbors = new size_t[num_spheres];
 	size_t** neighbors = new size_t*[num_spheres];
 	
@@ -3086,7 +3085,7 @@ int MeshingVoronoiMesher::impose_lipschitz_continuity(size_t num_spheres, size_t
 #endif
 	for (int i = 0; i < num_spheres; i++)
 	{ 
-		for (size_t idim = 0; idim < num_dim; idim++) x[idim] = spheres[i * num_dim + idim];
+		double* x = spheres + i * num_dim;
 		get_tree_points_in_sphere(num_spheres, num_dim, spheres, tree_origin, tree_right, tree_left, x, 2.0 * spheres_sizing[i], num_neighbors[i], neighbors[i]);
 	}
 
@@ -3123,7 +3122,7 @@ int MeshingVoronoiMesher::impose_lipschitz_continuity(size_t num_spheres, size_t
 	{
 		if (num_neighbors[i] > 0) delete[] neighbors[i];
 	}
-	delete[] neighbors; delete[] num_neighbors; delete[] x;
+	delete[] neighbors; delete[] num_neighbors;
 	return 0;
 	#pragma endregion
 
-- 
2.43.0


From c2844955fa71ab5bd8ec96ec2daecd82641e7c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:58 +0000
Subject: [PATCH 04/23] fix: size the corner-sphere and sizing-point trees by
 their own counts

Both trees were allocated with the number of surface spheres, so a sizing file
with more points than the model has surface spheres overran the heap.
---
 src/Meshing/MeshingVoronoiMesher.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/Meshing/MeshingVoronoiMesher.cpp b/src/Meshing/MeshingVoronoiMesher.cpp
index d880d0f..51719a9 100644
--- a/src/Meshing/MeshingVoronoiMesher.cpp
+++ b/src/Meshing/MeshingVoronoiMesher.cpp
@@ -139,8 +139,8 @@ int MeshingVoronoiMesher::ensure_sharp_edge_spheres_are_Delaunay(size_t& num_see
 
 	if (num_corner_spheres > 0)
 	{
-		corner_spheres_tree_right = new size_t[num_surface_spheres];
-		corner_spheres_tree_left = new size_t[num_surface_spheres];
+		corner_spheres_tree_right = new size_t[num_corner_spheres];
+		corner_spheres_tree_left = new size_t[num_corner_spheres];
 		build_balanced_kd_tree(num_corner_spheres, 3, corner_spheres, corner_spheres_tree_origin, corner_spheres_tree_right, corner_spheres_tree_left);
 
 		corner_spheres_sorted = new double[num_corner_spheres * 3];
@@ -161,8 +161,8 @@ int MeshingVoronoiMesher::ensure_sharp_edge_spheres_are_Delaunay(size_t& num_see
 
 	if (num_sizing_points > 0)
 	{
-		sizing_points_tree_right = new size_t[num_surface_spheres];
-		sizing_points_tree_left = new size_t[num_surface_spheres];
+		sizing_points_tree_right = new size_t[num_sizing_points];
+		sizing_points_tree_left = new size_t[num_sizing_points];
 		build_balanced_kd_tree(num_sizing_points, 3, sizing_points, sizing_points_tree_origin, sizing_points_tree_right, sizing_points_tree_left);
 
 		sizing_points_sorted = new double[num_sizing_points * 3];
@@ -537,8 +537,8 @@ int MeshingVoronoiMesher::impose_interior_seeds(size_t& num_seeds, double*& seed
 
 	if (num_corner_spheres > 0)
 	{
-		corner_spheres_tree_right = new size_t[num_surface_spheres];
-		corner_spheres_tree_left = new size_t[num_surface_spheres];
+		corner_spheres_tree_right = new size_t[num_corner_spheres];
+		corner_spheres_tree_left = new size_t[num_corner_spheres];
 		build_balanced_kd_tree(num_corner_spheres, 3, corner_spheres, corner_spheres_tree_origin, corner_spheres_tree_right, corner_spheres_tree_left);
 
 		corner_spheres_sorted = new double[num_corner_spheres * 3];
@@ -559,8 +559,8 @@ int MeshingVoronoiMesher::impose_interior_seeds(size_t& num_seeds, double*& seed
 
 	if (num_sizing_points > 0)
 	{
-		sizing_points_tree_right = new size_t[num_surface_spheres];
-		sizing_points_tree_left = new size_t[num_surface_spheres];
+		sizing_points_tree_right = new size_t[num_sizing_points];
+		sizing_points_tree_left = new size_t[num_sizing_points];
 		build_balanced_kd_tree(num_sizing_points, 3, sizing_points, sizing_points_tree_origin, sizing_points_tree_right, sizing_points_tree_left);
 
 		sizing_points_sorted = new double[num_sizing_points * 3];
@@ -926,8 +926,8 @@ int MeshingVoronoiMesher::generate_interior_seeds(size_t& num_seeds, double*& se
 
 	if (num_corner_spheres > 0)
 	{
-		corner_spheres_tree_right = new size_t[num_surface_spheres];
-		corner_spheres_tree_left = new size_t[num_surface_spheres];
+		corner_spheres_tree_right = new size_t[num_corner_spheres];
+		corner_spheres_tree_left = new size_t[num_corner_spheres];
 		build_balanced_kd_tree(num_corner_spheres, 3, corner_spheres, corner_spheres_tree_origin, corner_spheres_tree_right, corner_spheres_tree_left);
 
 		corner_spheres_sorted = new double[num_corner_spheres * 3];
@@ -948,8 +948,8 @@ int MeshingVoronoiMesher::generate_interior_seeds(size_t& num_seeds, double*& se
 
 	if (num_sizing_points > 0)
 	{
-		sizing_points_tree_right = new size_t[num_surface_spheres];
-		sizing_points_tree_left = new size_t[num_surface_spheres];
+		sizing_points_tree_right = new size_t[num_sizing_points];
+		sizing_points_tree_left = new size_t[num_sizing_points];
 		build_balanced_kd_tree(num_sizing_points, 3, sizing_points, sizing_points_tree_origin, sizing_points_tree_right, sizing_points_tree_left);
 
 		sizing_points_sorted = new double[num_sizing_points * 3];
-- 
2.43.0


From 09859d22a94880739bd2cce435376858b0f81f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:58 +0000
Subject: [PATCH 05/23] fix: data race on the number of valid imposed seeds

The counter was incremented inside the parallel loop without synchronisation;
a lost update made the seed arrays too small for the seeds written to them.
---
 src/Meshing/MeshingVoronoiMesher.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Meshing/MeshingVoronoiMesher.cpp b/src/Meshing/MeshingVoronoiMesher.cpp
index 51719a9..cf5d3b8 100644
--- a/src/Meshing/MeshingVoronoiMesher.cpp
+++ b/src/Meshing/MeshingVoronoiMesher.cpp
@@ -762,7 +762,11 @@ int MeshingVoronoiMesher::impose_interior_seeds(size_t& num_seeds, double*& seed
 		}
 		delete[] x;
 		valid_seed[iseed] = true;
-		num_valid_seeds++;
+	}
+
+	for (size_t iseed = 0; iseed < num_imposed_seeds; iseed++)
+	{
+		if (valid_seed[iseed]) num_valid_seeds++;
 	}
 
 	vcm_cout << "  * Number of imposed seeds " << num_valid_seeds << std::endl;
-- 
2.43.0


From 330da202e6dea13dab83c7e36748a5a5e19aaf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:29 +0000
Subject: [PATCH 06/23] fix: out-of-bounds read when an edge sphere has no
 neighbor along a direction

The search returns the number of points, not SIZE_MAX, when nothing is found;
ensure_sharp_edge_spheres_are_Delaunay then indexed past its tables.
---
 src/Meshing/MeshingVoronoiMesher.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Meshing/MeshingVoronoiMesher.cpp b/src/Meshing/MeshingVoronoiMesher.cpp
index cf5d3b8..722ab98 100644
--- a/src/Meshing/MeshingVoronoiMesher.cpp
+++ b/src/Meshing/MeshingVoronoiMesher.cpp
@@ -208,7 +208,7 @@ int MeshingVoronoiMesher::ensure_sharp_edge_spheres_are_Delaunay(size_t& num_see
 				                   edge_spheres_tree_origin, edge_spheres_tree_right, edge_spheres_tree_left,
 				                   edge_spheres_new_index[isphere], e_dir, iclosest, hclosest);
 
-			if (iclosest != SIZE_MAX && hclosest < xo[3] + edge_spheres_sizing[edge_spheres_old_index[iclosest]])
+			if (iclosest < num_edge_spheres && hclosest < xo[3] + edge_spheres_sizing[edge_spheres_old_index[iclosest]])
 			{
 				size_t jsphere = edge_spheres_old_index[iclosest];
 				xn[0] = edge_spheres[jsphere * 3];
@@ -223,6 +223,8 @@ int MeshingVoronoiMesher::ensure_sharp_edge_spheres_are_Delaunay(size_t& num_see
 					                   corner_spheres_tree_origin, corner_spheres_tree_right, corner_spheres_tree_left,
 					                   xo, e_dir, iclosest, hclosest);
 
+				if (iclosest >= num_corner_spheres) continue; // no neighbor along this direction
+
 				size_t jsphere = corner_spheres_old_index[iclosest];
 				xn[0] = corner_spheres[jsphere * 3];
 				xn[1] = corner_spheres[jsphere * 3 + 1];
-- 
2.43.0


From 2a3329d610243ed153c55607cc5b8a58ba9d9317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:05 +0000
Subject: [PATCH 07/23] fix: keep simultaneously active front seeds apart,
 including the previous one

The conflict test stopped one short (j < i - 1), so two neighbouring front
entries could be advanced together without seeing each other and leave interior
seeds inside each other's spheres.
---
 src/Meshing/MeshingVoronoiMesher.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Meshing/MeshingVoronoiMesher.cpp b/src/Meshing/MeshingVoronoiMesher.cpp
index 722ab98..a274ce6 100644
--- a/src/Meshing/MeshingVoronoiMesher.cpp
+++ b/src/Meshing/MeshingVoronoiMesher.cpp
@@ -1045,7 +1045,7 @@ int MeshingVoronoiMesher::generate_interior_seeds(size_t& num_seeds, double*& se
 			size_t si_index = front_indices[i];
 
 			bool good_seed(true);
-			for (size_t j = 0; j < i - 1; j++)
+			for (size_t j = 0; j < i; j++)
 			{
 				if (is_active_seed[j])
 				{
-- 
2.43.0


From 88a3678ccecd844322c3a9ca41433b1a24a6841a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:53 +0000
Subject: [PATCH 08/23] fix: look up neighbours of a new sphere with its own
 radius, not that of the previous sample

---
 src/Meshing/MeshingVoroCrustSampler.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Meshing/MeshingVoroCrustSampler.cpp b/src/Meshing/MeshingVoroCrustSampler.cpp
index 0611f9c..72fc347 100644
--- a/src/Meshing/MeshingVoroCrustSampler.cpp
+++ b/src/Meshing/MeshingVoroCrustSampler.cpp
@@ -1233,6 +1233,7 @@ int MeshingVoroCrustSampler::generate_edge_spheres(size_t num_points, double** p
 
 				if (num_samples > 1)
 				{
+					new_sphere[3] = fmin(fmin(surf_sz, edge_sz), rmax);   // not the radius of the previous sample
 					size_t num_nearby_spheres_s(0); size_t* nearby_spheres_s(0);
 					_smethods.get_overlapping_spheres(new_sphere, edge_spheres, Lip, num_nearby_spheres_s, nearby_spheres_s);
 					for (size_t i = 0; i < num_nearby_spheres_s; i++)
@@ -2703,6 +2704,7 @@ int MeshingVoroCrustSampler::sample_active_pool(size_t num_samples, size_t num_p
 
 				if (num_samples > 0)
 				{
+					new_sphere[thread_id][3] = surf_sz;   // not the radius of the previous sample
 					size_t num_nearby_spheres_s(0); size_t* nearby_spheres_s(0);
 					_smethods.get_overlapping_spheres(new_sphere[thread_id], surface_spheres, Lip, num_nearby_spheres_s, nearby_spheres_s);
 					for (size_t i = 0; i < num_nearby_spheres_s; i++)
-- 
2.43.0


From 36abbdd4cf2669ead2cfa0cc5d2dd5479847209e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 09/23] fix: read of one entry past the row in the rank one
 update of the sparse Cholesky factor

---
 src/Meshing/MeshingLinearSolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Meshing/MeshingLinearSolver.cpp b/src/Meshing/MeshingLinearSolver.cpp
index ff4195a..9d3bc3a 100644
--- a/src/Meshing/MeshingLinearSolver.cpp
+++ b/src/Meshing/MeshingLinearSolver.cpp
@@ -297,7 +297,7 @@ int MeshingLinearSolver::Cholesky_factorization_rank_one_update(size_t num_rows,
 
 		size_t nnz(CJ[irow][1]);
 		size_t pos = find_entry_position_binary(irow, CJ[irow], 2, 1 + nnz);
-		while (CJ[irow][pos] <= irow && pos < 2 + nnz) pos++;
+		while (pos < 2 + nnz && CJ[irow][pos] <= irow) pos++;
 		size_t next_c_row(num_rows);
 		if (pos < 2 + nnz) next_c_row = CJ[irow][pos];
 
-- 
2.43.0


From f60865f35eec5bfff63b239af8aa8f568ccb73f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:01 +0000
Subject: [PATCH 10/23] fix: refuse a control file that cannot be read or names
 no input, and exit with an error status

---
 src/Meshing/MeshingVoroCrust.cpp | 18 +++++++++++++++---
 src/Meshing/vc_mesh.cxx          |  5 +++--
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/Meshing/MeshingVoroCrust.cpp b/src/Meshing/MeshingVoroCrust.cpp
index 11e4e8a..6bedd86 100644
--- a/src/Meshing/MeshingVoroCrust.cpp
+++ b/src/Meshing/MeshingVoroCrust.cpp
@@ -88,6 +88,14 @@ int MeshingVoroCrust::execute()
 
 			if (tokens.size() == 0) continue;
 
+			if (tokens.size() < 3 && (tokens[0] == "INPUT_MESH_FILE" || tokens[0] == "SIZING_FILE" || tokens[0] == "SEEDS_FILE" ||
+			                          tokens[0] == "R_MIN" || tokens[0] == "R_MAX" || tokens[0] == "LIP_CONST" ||
+			                          tokens[0] == "VC_ANGLE" || tokens[0] == "NUM_THREADS"))
+			{
+				vcm_cout << "\n*** Missing value of " << tokens[0] << " in the input file, good bye!" << std::endl;
+				return 1;
+			}
+
 			if (tokens[0] == "INPUT_MESH_FILE") filenames.push_back(tokens[2]);
 			if (tokens[0] == "SIZING_FILE") sizing_file = tokens[2];
 			if (tokens[0] == "R_MIN") r_min = _memo.string_to_double(tokens[2]);
@@ -105,9 +113,13 @@ int MeshingVoroCrust::execute()
 	}
 	else
 	{
-		vcm_cout << "\n*** Failed to open input file, good bye!";
-		char ii;
-		std::cin >> ii;
+		vcm_cout << "\n*** Failed to open input file, good bye!" << std::endl;
+		return 1;
+	}
+
+	if (filenames.size() == 0)
+	{
+		vcm_cout << "\n*** The input file names no mesh or seeds file, good bye!" << std::endl;
 		return 1;
 	}
 
diff --git a/src/Meshing/vc_mesh.cxx b/src/Meshing/vc_mesh.cxx
index 5d2af4a..b3f43d4 100644
--- a/src/Meshing/vc_mesh.cxx
+++ b/src/Meshing/vc_mesh.cxx
@@ -115,6 +115,7 @@ public:
 
 int main(int argc, char* argv[])
 {
+	int status(0);
 	#ifdef USE_KOKKOS
 	Kokkos::initialize(argc, argv);
 	{
@@ -128,7 +129,7 @@ int main(int argc, char* argv[])
 		if( options.get_method() == options.method_type_vc())
 		{
 			MeshingVoroCrust vc(options.get_filename());
-			vc.execute();
+			status = vc.execute();
 		}
 		//if ( options.get_method() == options.method_type_smooth() ) {
 		//	vcm_cout << "Triggered path" << std::endl;
@@ -153,6 +154,6 @@ int main(int argc, char* argv[])
 	Kokkos::finalize();
 	#endif // USE_KOKKOS
 
-	return 0;
+	return status;
 }
 
-- 
2.43.0


From ee035fb412f2ee544b285fccac798db6a77bcfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:01 +0000
Subject: [PATCH 11/23] fix: refuse thread counts, sizes and Lipschitz
 constants out of their range

---
 src/Meshing/MeshingVoroCrust.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/Meshing/MeshingVoroCrust.cpp b/src/Meshing/MeshingVoroCrust.cpp
index 6bedd86..bf99840 100644
--- a/src/Meshing/MeshingVoroCrust.cpp
+++ b/src/Meshing/MeshingVoroCrust.cpp
@@ -102,7 +102,12 @@ int MeshingVoroCrust::execute()
 			if (tokens[0] == "R_MAX") r_max = _memo.string_to_double(tokens[2]);
 			if (tokens[0] == "LIP_CONST") Lip_const = _memo.string_to_double(tokens[2]);
 			if (tokens[0] == "VC_ANGLE") vc_ang_tol = _memo.string_to_double(tokens[2]);
-			if (tokens[0] == "NUM_THREADS") num_threads = int(_memo.string_to_double(tokens[2]));
+			if (tokens[0] == "NUM_THREADS")
+			{
+				double value = _memo.string_to_double(tokens[2]);
+				if (value >= 1.0 && value <= double(std::numeric_limits<int>::max())) num_threads = int(value);
+				else                                          num_threads = 0;
+			}
 			if (tokens[0] == "GENERATE_VCG_FILE") geneate_vcg_file = true;
             if (tokens[0] == "GENERATE_EXODUS_FILE") generate_exodus_file = true;
 			if (tokens[0] == "GENERATE_MONITORING_POINTS") generate_monitoring_points = true;
@@ -117,6 +122,12 @@ int MeshingVoroCrust::execute()
 		return 1;
 	}
 
+	if (num_threads < 1 || r_min < 0.0 || r_max <= 0.0 || Lip_const <= 0.0)
+	{
+		vcm_cout << "\n*** NUM_THREADS, R_MAX and LIP_CONST should be positive and R_MIN should not be negative, good bye!" << std::endl;
+		return 1;
+	}
+
 	if (filenames.size() == 0)
 	{
 		vcm_cout << "\n*** The input file names no mesh or seeds file, good bye!" << std::endl;
-- 
2.43.0


From 2042c6322404de1c51fd259fd8f5fcd1a3f6c0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 12/23] fix: refuse OBJ files with short lines, missing
 vertices or faces, or indices out of range

---
 src/Meshing/MeshingPolyMesh.cpp  | 26 +++++++++++++++++++++++++-
 src/Meshing/MeshingVoroCrust.cpp |  4 ++--
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/Meshing/MeshingPolyMesh.cpp b/src/Meshing/MeshingPolyMesh.cpp
index 94e0272..5d39b96 100644
--- a/src/Meshing/MeshingPolyMesh.cpp
+++ b/src/Meshing/MeshingPolyMesh.cpp
@@ -219,6 +219,7 @@ int MeshingPolyMesh::read_input_obj_file(std::string filename, size_t &num_point
 
 	std::ifstream myfile(filename.c_str());
 
+	size_t max_index(num_points); bool valid(true);
 	num_points = 0; num_faces = 0;
 	if (myfile.is_open() && myfile.good())
 	{
@@ -232,6 +233,11 @@ int MeshingPolyMesh::read_input_obj_file(std::string filename, size_t &num_point
 
 			if (tokens.size() == 0) continue;
 
+			if ((tokens[0] == "v" || tokens[0] == "f") && tokens.size() < 4)
+			{
+				valid = false; break;
+			}
+
 			if (tokens[0] == "v")
 			{
 				points[num_points] = new double[3];
@@ -249,7 +255,15 @@ int MeshingPolyMesh::read_input_obj_file(std::string filename, size_t &num_point
 
 				faces[num_faces] = new size_t[4];
 				faces[num_faces][0] = 3;
-				for (size_t i = 1; i <= 3; i++) faces[num_faces][i] = size_t(_memo.string_to_double(tokens[i]) - 1);
+				for (size_t i = 1; i <= 3; i++)
+				{
+					double index = _memo.string_to_double(tokens[i]);
+					if (index < 1.0 || index > double(max_index))
+					{
+						valid = false; index = 1.0;
+					}
+					faces[num_faces][i] = size_t(index - 1);
+				}
 
 				bool redundant(false);
 				if (false)
@@ -283,6 +297,16 @@ int MeshingPolyMesh::read_input_obj_file(std::string filename, size_t &num_point
 		}
 	}
 
+	if (!valid || num_points == 0 || num_faces == 0)
+	{
+		vcm_cout << "  * " << filename << " is missing or is not a valid triangle mesh!" << std::endl;
+		for (size_t ipoint = 0; ipoint < num_points; ipoint++) delete[] points[ipoint];
+		for (size_t iface = 0; iface < num_faces; iface++) delete[] faces[iface];
+		delete[] points; delete[] faces;
+		points = 0; faces = 0; num_points = 0; num_faces = 0;
+		return 1;
+	}
+
 	if (false)
 	{
 		#pragma region Pleace the origin at the lower left corner of the bounding box of the model:
diff --git a/src/Meshing/MeshingVoroCrust.cpp b/src/Meshing/MeshingVoroCrust.cpp
index bf99840..f2b3221 100644
--- a/src/Meshing/MeshingVoroCrust.cpp
+++ b/src/Meshing/MeshingVoroCrust.cpp
@@ -202,7 +202,7 @@ int MeshingVoroCrust::execute()
 		for (size_t i = 0; i < num_input_files; i++)
 		{
 			size_t tmp_num_points; double** tmp_points; size_t tmp_num_faces; size_t** tmp_faces;
-			tmp_plc.read_input_obj_file(filenames[i].c_str(), tmp_num_points, tmp_points, tmp_num_faces, tmp_faces);
+			if (tmp_plc.read_input_obj_file(filenames[i].c_str(), tmp_num_points, tmp_points, tmp_num_faces, tmp_faces) != 0) return 1;
 
 			for (size_t iface = 0; iface < tmp_num_faces; iface++)
 			{
@@ -235,7 +235,7 @@ int MeshingVoroCrust::execute()
 	else
 	{
 		MeshingPolyMesh tmp_plc;
-		tmp_plc.read_input_obj_file(filenames[0].c_str(), num_points, points, num_faces, faces);
+		if (tmp_plc.read_input_obj_file(filenames[0].c_str(), num_points, points, num_faces, faces) != 0) return 1;
 	}
 
 	//clock_t start_time, end_time; double cpu_time;
-- 
2.43.0


From 773cff20e9fa6f74cda926ecf9980b44691ff354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 13/23] fix: skip blank lines of a sizing file and refuse
 unreadable or non-positive sizes

---
 src/Meshing/MeshingSmartTree.cpp |  9 ++++++++-
 src/Meshing/MeshingVoroCrust.cpp | 12 +++++++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/Meshing/MeshingSmartTree.cpp b/src/Meshing/MeshingSmartTree.cpp
index 733dc7d..684e1b5 100644
--- a/src/Meshing/MeshingSmartTree.cpp
+++ b/src/Meshing/MeshingSmartTree.cpp
@@ -247,6 +247,7 @@ int MeshingSmartTree::load_tree_csv(std::string file_name, size_t num_dim)
 		std::string line = "";
 		size_t iline(0), num_entries(0), num_attrib(0);
 		double* x(0); double* normal(0); size_t* attrib(0);
+		bool valid(true);
 		while (getline(tmpfile, line))
 		{
 			std::istringstream iss(line);
@@ -266,7 +267,12 @@ int MeshingSmartTree::load_tree_csv(std::string file_name, size_t num_dim)
 				iline++;
 				continue;
 			}
-			if (tokens.size() == 0) continue;
+			if (tokens.size() == 1 && tokens[0].find_first_not_of(" \t\r") == std::string::npos) continue; // an empty line
+
+			if (tokens.size() < num_dim || tokens.size() < num_entries)
+			{
+				valid = false; break;
+			}
 
 			for (size_t i = 0; i < num_dim; i++) x[i] = _memo.string_to_double(tokens[i]);
 
@@ -285,6 +291,7 @@ int MeshingSmartTree::load_tree_csv(std::string file_name, size_t num_dim)
 		delete[] x;
 		if (normal != 0) delete[] normal;
 		if (attrib != 0) delete[] attrib;
+		if (!valid) return 1;
 	}
 	end_time = clock();
 	cpu_time = ((double)(end_time - start_time)) / CLOCKS_PER_SEC;
diff --git a/src/Meshing/MeshingVoroCrust.cpp b/src/Meshing/MeshingVoroCrust.cpp
index f2b3221..5c108e0 100644
--- a/src/Meshing/MeshingVoroCrust.cpp
+++ b/src/Meshing/MeshingVoroCrust.cpp
@@ -191,7 +191,17 @@ int MeshingVoroCrust::execute()
 	if (sizing_file != "")
 	{
 		input_sizing_function = new MeshingSmartTree(3);
-		input_sizing_function->load_tree_csv(sizing_file, 4);
+		bool valid_sizing = input_sizing_function->load_tree_csv(sizing_file, 4) == 0 && input_sizing_function->get_num_tree_points() > 0;
+		for (size_t ipoint = 0; ipoint < input_sizing_function->get_num_tree_points(); ipoint++)
+		{
+			if (input_sizing_function->get_tree_point(ipoint)[3] <= 0.0) valid_sizing = false;
+		}
+		if (!valid_sizing)
+		{
+			vcm_cout << "\n*** " << sizing_file << " is missing or is not a valid sizing file, good bye!" << std::endl;
+			delete input_sizing_function;
+			return 1;
+		}
 	}
 
 	size_t num_points(0); double** points(0); size_t num_faces(0); size_t** faces(0);
-- 
2.43.0


From e21ff3d43d33906018b3ccf1d15a4652578f3dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 14/23] fix: skip blank lines of a seeds file and refuse
 unreadable seeds or non-positive sizes

---
 src/Meshing/MeshingVoroCrust.cpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/Meshing/MeshingVoroCrust.cpp b/src/Meshing/MeshingVoroCrust.cpp
index 5c108e0..9c13889 100644
--- a/src/Meshing/MeshingVoroCrust.cpp
+++ b/src/Meshing/MeshingVoroCrust.cpp
@@ -143,7 +143,7 @@ int MeshingVoroCrust::execute()
 		if (generate_exodus_file)
 			vcm_cout << "    Generate Exodus file!" << std::endl;
 		vcm_cout << "    Number of OpenMP threads = " << num_threads << std::endl;
-		generate_mesh_from_seeds_file(filenames[0], num_threads, geneate_vcg_file, generate_exodus_file);
+		if (generate_mesh_from_seeds_file(filenames[0], num_threads, geneate_vcg_file, generate_exodus_file) != 0) return 1;
 		vcm_cout << "\n*** MeshingVoroCrust::Mission Accomplished!" << std::endl;
 		return 0;
 	}
@@ -795,9 +795,8 @@ int MeshingVoroCrust::generate_mesh_from_seeds_file(std::string file_name, int n
 {
 	size_t num_seeds;
 	double* seeds; size_t* seeds_region_id; double* seeds_sizing;
-	read_seeds_csv(file_name, num_seeds, seeds, seeds_region_id, seeds_sizing);
-	generate_explicit_mesh(num_threads, num_seeds, seeds, seeds_region_id, seeds_sizing, num_seeds, generate_vcg_file, generate_exodus_file);
-	return 0;
+	if (read_seeds_csv(file_name, num_seeds, seeds, seeds_region_id, seeds_sizing) != 0) return 1;
+	return generate_explicit_mesh(num_threads, num_seeds, seeds, seeds_region_id, seeds_sizing, num_seeds, generate_vcg_file, generate_exodus_file);
 }
 
 
@@ -820,7 +819,7 @@ int MeshingVoroCrust::read_seeds_csv(std::string file_name, size_t& num_seeds, d
 			std::vector<std::string> tokens;
 			get_tokens(line, ',', tokens);
 
-			if (tokens.size() == 0) continue;
+			if (tokens.size() == 1 && tokens[0].find_first_not_of(" \t\r") == std::string::npos) continue; // an empty line
 
 			num_seeds++;
 		}
@@ -832,6 +831,7 @@ int MeshingVoroCrust::read_seeds_csv(std::string file_name, size_t& num_seeds, d
 	seeds_sizing = new double[num_seeds];
 	seeds_region_id = new size_t[num_seeds];
 
+	bool valid(true);
 	num_seeds = 0;
 	if (tmpfile_2.is_open() && tmpfile_2.good())
 	{
@@ -843,15 +843,28 @@ int MeshingVoroCrust::read_seeds_csv(std::string file_name, size_t& num_seeds, d
 			std::vector<std::string> tokens;
 			get_tokens(line, ',', tokens);
 
-			if (tokens.size() == 0) continue;
+			if (tokens.size() == 1 && tokens[0].find_first_not_of(" \t\r") == std::string::npos) continue; // an empty line
+
+			if (tokens.size() < 5)
+			{
+				valid = false; break;
+			}
 
 			for (size_t idim = 0; idim < 3; idim++) seeds[num_seeds * 3 + idim] = _memo.string_to_double(tokens[idim]);
 			seeds_sizing[num_seeds] = _memo.string_to_double(tokens[3]);
 			seeds_region_id[num_seeds] = _memo.string_to_size_t(tokens[4]);
+			if (seeds_sizing[num_seeds] <= 0.0) valid = false;
 			num_seeds++;
 		}
 	}
 
+	if (!valid || num_seeds == 0)
+	{
+		vcm_cout << "\n*** " << file_name << " is missing or is not a valid seeds file, good bye!" << std::endl;
+		delete[] seeds; delete[] seeds_sizing; delete[] seeds_region_id;
+		return 1;
+	}
+
 	vcm_cout << "  * executed in = " << timer.report_timing() << " seconds! ***" << std::endl;
 	return 0;
 	#pragma endregion
-- 
2.43.0


From 33e33ec9f01624718f53352f2b2c3478a9e76031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 15/23] fix: stop when the cell of a meshed seed is not bounded
 by the other seeds

---
 src/Meshing/MeshingVoroCrust.cpp     |  8 ++++--
 src/Meshing/MeshingVoronoiMesher.cpp | 42 ++++++++++++++++++++++++----
 2 files changed, 43 insertions(+), 7 deletions(-)

diff --git a/src/Meshing/MeshingVoroCrust.cpp b/src/Meshing/MeshingVoroCrust.cpp
index 9c13889..28542b7 100644
--- a/src/Meshing/MeshingVoroCrust.cpp
+++ b/src/Meshing/MeshingVoroCrust.cpp
@@ -669,8 +669,12 @@ int MeshingVoroCrust::generate_explicit_mesh(int num_threads, size_t num_seeds,
 	size_t num_vertices(0); double* vertices(0);
 	size_t num_faces(0); size_t** faces(0);
 
-	mesher.generate_3d_voronoi_mesh(num_threads, num_seeds, seeds, seeds_region_id, seeds_sizing,
-		                            num_vertices, vertices, num_faces, faces);
+	if (mesher.generate_3d_voronoi_mesh(num_threads, num_seeds, seeds, seeds_region_id, seeds_sizing,
+		                                num_vertices, vertices, num_faces, faces) != 0)
+	{
+		delete[] seeds; delete[] seeds_region_id; delete[] seeds_sizing;
+		return 1;
+	}
 
 	if (false)
 	{
diff --git a/src/Meshing/MeshingVoronoiMesher.cpp b/src/Meshing/MeshingVoronoiMesher.cpp
index a274ce6..4d7369e 100644
--- a/src/Meshing/MeshingVoronoiMesher.cpp
+++ b/src/Meshing/MeshingVoronoiMesher.cpp
@@ -1649,20 +1649,25 @@ int MeshingVoronoiMesher::generate_3d_voronoi_mesh(int num_threads, size_t num_s
 	size_t** cell_corner_neighbors = new size_t*[num_seeds];
 	size_t** cell_corner_seeds = new size_t*[num_seeds];
 	size_t** cell_corner_indices = new size_t*[num_seeds]; // seed and local indices
+	size_t num_unbounded_cells(0);
 
 #if defined USE_OPEN_MP
 	omp_set_num_threads(num_threads);
-#pragma omp parallel for
+#pragma omp parallel for reduction(+ : num_unbounded_cells)
 #endif
 	for (int iseed = 0; iseed < num_seeds; iseed++)
 	{
 		size_t old_seed_index = seed_old_index[iseed];
 		if (seed_region_id[old_seed_index] == 0) continue;
 
-		get_3d_Voronoi_cell(num_seeds, seeds_sorted, tree_origin, tree_right, tree_left, 
-			               iseed, 2.0 * seed_sizing[old_seed_index], ghost_seed,
-			               num_cell_corners[old_seed_index], cell_corners[old_seed_index], 
-			               cell_corner_neighbors[old_seed_index], cell_corner_seeds[old_seed_index], cell_corner_indices[old_seed_index]);
+		if (get_3d_Voronoi_cell(num_seeds, seeds_sorted, tree_origin, tree_right, tree_left, 
+			                    iseed, 2.0 * seed_sizing[old_seed_index], ghost_seed,
+			                    num_cell_corners[old_seed_index], cell_corners[old_seed_index], 
+			                    cell_corner_neighbors[old_seed_index], cell_corner_seeds[old_seed_index], cell_corner_indices[old_seed_index]) != 0)
+		{
+			num_unbounded_cells++;
+			continue;
+		}
 
 		for (size_t icorner = 0; icorner < num_cell_corners[old_seed_index]; icorner++)
 		{
@@ -1674,6 +1679,20 @@ int MeshingVoronoiMesher::generate_3d_voronoi_mesh(int num_threads, size_t num_s
 	delete[] ghost_seed; delete[] seeds_sorted; delete[] tree_right; delete[] tree_left;
 	delete[] seed_old_index; delete[] seed_new_index;
 	
+	if (num_unbounded_cells > 0)
+	{
+		vcm_cout << "  * " << num_unbounded_cells << " cells are not bounded by other seeds, no mesh is generated!" << std::endl;
+		for (int iseed = 0; iseed < num_seeds; iseed++)
+		{
+			if (seed_region_id[iseed] == 0 || num_cell_corners[iseed] == 0) continue;
+			delete[] cell_corners[iseed]; delete[] cell_corner_neighbors[iseed];
+			delete[] cell_corner_seeds[iseed]; delete[] cell_corner_indices[iseed];
+		}
+		delete[] num_cell_corners; delete[] cell_corners; delete[] cell_corner_neighbors;
+		delete[] cell_corner_seeds; delete[] cell_corner_indices;
+		return 1;
+	}
+
 	for (int iseed = 0; iseed < num_seeds; iseed++)
 	{
 		#pragma region Tag local index of every vertex:
@@ -1965,6 +1984,7 @@ int MeshingVoronoiMesher::get_3d_Voronoi_cell(size_t num_seeds, double* seeds, s
 	for (size_t idim = 0; idim < 3; idim++) x[idim] = seeds[seed_index * 3 + idim];
 
 	double* xo = new double[3]; double* n = new double[3];
+	double r_all(0.0);
 
 	while (true)
 	{
@@ -1976,6 +1996,18 @@ int MeshingVoronoiMesher::get_3d_Voronoi_cell(size_t num_seeds, double* seeds, s
 
 		if (num_local_neighbors == 0) continue;
 
+		if (num_local_neighbors == num_seeds || r > 1E150)
+		{
+			// all seeds were considered, a cell that is still much larger than the distance to any of them is not bounded
+			if (r_all == 0.0) r_all = r;
+			if (r > 1E3 * r_all || r > 1E150)
+			{
+				delete[] local_neighbors; delete[] x; delete[] xo; delete[] n;
+				num_cell_corners = 0;
+				return 1;
+			}
+		}
+
 		double* local_seeds = new double[num_local_neighbors * 3];
 		size_t iseed(0);
 		for (size_t ineighbor = 0; ineighbor < num_local_neighbors; ineighbor++)
-- 
2.43.0


From 92e78fd9cee79d7189c893c6349eef8aa06b6f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 16/23] fix: merge the regions of a patch by their
 representatives, whatever the order of the facets

---
 src/Meshing/MeshingVoroCrust.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/Meshing/MeshingVoroCrust.cpp b/src/Meshing/MeshingVoroCrust.cpp
index 28542b7..d5034df 100644
--- a/src/Meshing/MeshingVoroCrust.cpp
+++ b/src/Meshing/MeshingVoroCrust.cpp
@@ -698,13 +698,19 @@ int MeshingVoroCrust::generate_explicit_mesh(int num_threads, size_t num_seeds,
 		size_t seed_i = faces[iface][num_corners + 1];
 		size_t seed_j = faces[iface][num_corners + 2];
 		if (seed_i < num_surface_seeds || seed_j < num_surface_seeds) continue;
-		if (region_new_index[seeds_region_id[seed_i]] == region_new_index[seeds_region_id[seed_j]]) continue;
+
+		// the regions these two seeds were merged into so far
+		size_t region_i = seeds_region_id[seed_i];
+		while (region_new_index[region_i] != region_i) region_i = region_new_index[region_i];
+		size_t region_j = seeds_region_id[seed_j];
+		while (region_new_index[region_j] != region_j) region_j = region_new_index[region_j];
+		if (region_i == region_j) continue;
 
 		// two internal neighbor seeds from different region
-		if (region_new_index[seeds_region_id[seed_i]] < region_new_index[seeds_region_id[seed_j]])
-			region_new_index[seeds_region_id[seed_j]] = region_new_index[seeds_region_id[seed_i]];
+		if (region_i < region_j)
+			region_new_index[region_j] = region_i;
 		else
-			region_new_index[seeds_region_id[seed_i]] = region_new_index[seeds_region_id[seed_j]];
+			region_new_index[region_i] = region_j;
 	}
 
 	// adjust new region ids
-- 
2.43.0


From 500387b34dde0a0a045ba399a355ae311919d4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 17/23] fix: heap overflow for seed region ids that are not
 consecutive

---
 src/Meshing/MeshingVoroCrust.cpp | 27 +++++++--------------------
 1 file changed, 7 insertions(+), 20 deletions(-)

diff --git a/src/Meshing/MeshingVoroCrust.cpp b/src/Meshing/MeshingVoroCrust.cpp
index d5034df..99bda25 100644
--- a/src/Meshing/MeshingVoroCrust.cpp
+++ b/src/Meshing/MeshingVoroCrust.cpp
@@ -656,14 +656,10 @@ int MeshingVoroCrust::generate_explicit_mesh(int num_threads, size_t num_seeds,
 
 	MeshingTimer timer;
 
-	size_t num_regions(0);
-	for (size_t iseed = 0; iseed < num_seeds; iseed++)
-	{
-		if (seeds_region_id[iseed] > num_regions) num_regions = seeds_region_id[iseed];
-	}
-	num_regions++;
+	std::map<size_t, size_t> region_new_index; // ids in a seeds file may be any number
+	for (size_t iseed = 0; iseed < num_seeds; iseed++) region_new_index[seeds_region_id[iseed]] = seeds_region_id[iseed];
 
-	vcm_cout << "  * Number of surface seeds patches =  " << num_regions << std::endl;
+	vcm_cout << "  * Number of surface seeds patches =  " << region_new_index.size() << std::endl;
 
 	MeshingVoronoiMesher mesher;
 	size_t num_vertices(0); double* vertices(0);
@@ -689,9 +685,6 @@ int MeshingVoroCrust::generate_explicit_mesh(int num_threads, size_t num_seeds,
 	
 
 	// adjusting region id
-	size_t* region_new_index = new size_t[num_regions];
-	for (size_t iregion = 0; iregion < num_regions; iregion++) region_new_index[iregion] = iregion;
-
 	for (size_t iface = 0; iface < num_faces; iface++)
 	{
 		size_t num_corners = faces[iface][0];
@@ -714,20 +707,16 @@ int MeshingVoroCrust::generate_explicit_mesh(int num_threads, size_t num_seeds,
 	}
 
 	// adjust new region ids
-	for (size_t iregion = 0; iregion < num_regions; iregion++)
+	for (auto& region : region_new_index)
 	{
-		if (region_new_index[iregion] == iregion) continue;
-		size_t id = region_new_index[iregion];
-		while (region_new_index[id] != id) id = region_new_index[id]; // CHECK THAT LINE
-		region_new_index[iregion] = id;
+		while (region_new_index[region.second] != region.second) region.second = region_new_index[region.second];
 	}
 
 	size_t num_active_regions(0);
-	for (size_t iregion = 0; iregion < num_regions; iregion++)
+	for (auto& region : region_new_index)
 	{
-		if (region_new_index[iregion] == iregion) num_active_regions++;
+		if (region.second == region.first && region.first != 0) num_active_regions++;
 	}
-	num_active_regions--;
 
 	vcm_cout << "  * Number of volumetric regions =  " << num_active_regions << std::endl;
 
@@ -736,8 +725,6 @@ int MeshingVoroCrust::generate_explicit_mesh(int num_threads, size_t num_seeds,
 		seeds_region_id[iseed] = region_new_index[seeds_region_id[iseed]];
 	}
 
-	delete[] region_new_index;
-
 	size_t* cell_num_faces = new size_t[num_seeds];
 	for (size_t iseed = 0; iseed < num_seeds; iseed++) cell_num_faces[iseed] = 0;
 
-- 
2.43.0


From febd26e9eb401a86814e7fe56339ed1cf3ee06b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 18/23] fix: a Voronoi cell is complete only when no corner of
 the initial polytope is left

---
 src/Meshing/MeshingVoronoiMesher.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Meshing/MeshingVoronoiMesher.cpp b/src/Meshing/MeshingVoronoiMesher.cpp
index 4d7369e..1763dbe 100644
--- a/src/Meshing/MeshingVoronoiMesher.cpp
+++ b/src/Meshing/MeshingVoronoiMesher.cpp
@@ -2062,11 +2062,16 @@ int MeshingVoronoiMesher::get_3d_Voronoi_cell(size_t num_seeds, double* seeds, s
 			trim_vertex(closest_seed, xo, n, icorner, icorner, num_cell_corners, corners_cap, cell_corners, cell_corner_neighbors, cell_corner_seeds);
 		}
 		
-		double r_v(0.0);
+		double r_v(0.0); bool bounded(true);
 		for (size_t icorner = 0; icorner < num_cell_corners; icorner++)
 		{
 			if (cell_corners[icorner * 3 + 0] == DBL_MAX) continue;
 
+			for (size_t i = 0; i < 3; i++)
+			{
+				if (cell_corner_seeds[icorner * 3 + i] >= num_local_neighbors) bounded = false; // a face of the initial polytope
+			}
+
 			double dst(0.0);
 			for (size_t idim = 0; idim < 3; idim++)
 			{
@@ -2077,7 +2082,7 @@ int MeshingVoronoiMesher::get_3d_Voronoi_cell(size_t num_seeds, double* seeds, s
 		}
 		r_v = sqrt(r_v);
 		
-		if (2 * r_v < r + 1E-10)
+		if (bounded && 2 * r_v < r + 1E-10)
 		{
 			size_t num_good_corners(0);
 			size_t* corner_new_index = new size_t[num_cell_corners];
-- 
2.43.0


From cbcfed497fa61353f9978438749efdaf8b494ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 19/23] fix: division by zero when no cell is meshed

---
 src/Meshing/MeshingVoronoiMesher.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Meshing/MeshingVoronoiMesher.cpp b/src/Meshing/MeshingVoronoiMesher.cpp
index 1763dbe..7f961ca 100644
--- a/src/Meshing/MeshingVoronoiMesher.cpp
+++ b/src/Meshing/MeshingVoronoiMesher.cpp
@@ -2594,7 +2594,7 @@ int MeshingVoronoiMesher::save_vcg_file_pflotran(std::string outFile, size_t num
 	vcm_cout << "  * Total Number of connections = " << num_connections << std::endl;
 	vcm_cout << "    Minimum cell connections = " << min_num_connections << std::endl;
 	vcm_cout << "    Maximum cell connections = " << max_num_connections << std::endl;
-	vcm_cout << "    Average cell connections = " << num_connections / num_meshed_cells << std::endl;
+	if (num_meshed_cells > 0) vcm_cout << "    Average cell connections = " << num_connections / num_meshed_cells << std::endl;
 	delete[] seed_new_index; delete[] face_area_height;
 	return 0;
 	#pragma endregion
-- 
2.43.0


From 93b0b589aba6bdebb689d7bdcf9a968d40c9f092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 20/23] fix: wrong Voronoi cells of large, tiny or distant
 models due to absolute tolerances

---
 src/Meshing/MeshingVoronoiMesher.cpp | 39 +++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/src/Meshing/MeshingVoronoiMesher.cpp b/src/Meshing/MeshingVoronoiMesher.cpp
index 7f961ca..0def87f 100644
--- a/src/Meshing/MeshingVoronoiMesher.cpp
+++ b/src/Meshing/MeshingVoronoiMesher.cpp
@@ -1628,13 +1628,37 @@ int MeshingVoronoiMesher::generate_3d_voronoi_mesh(int num_threads, size_t num_s
 {
     #pragma region Generate a general 3d Voronoi Mesh:
 
+	// the tolerances below are absolute, so they are applied to a copy of the seeds moved to the origin and scaled (exactly) to unit size
+	double seeds_scale(1.0), seeds_origin[3] = { 0.0, 0.0, 0.0 }, half_extent(0.0);
+	for (size_t idim = 0; idim < 3; idim++)
+	{
+		double xmin(DBL_MAX), xmax(-DBL_MAX);
+		for (size_t iseed = 0; iseed < num_seeds; iseed++)
+		{
+			xmin = std::min(xmin, seeds[iseed * 3 + idim]);
+			xmax = std::max(xmax, seeds[iseed * 3 + idim]);
+		}
+		if (num_seeds > 0) seeds_origin[idim] = 0.5 * xmin + 0.5 * xmax;
+		half_extent = std::max(half_extent, 0.5 * xmax - 0.5 * xmin);
+	}
+	if (half_extent > 0.0)
+	{
+		int exponent(0);
+		frexp(half_extent, &exponent);
+		seeds_scale = ldexp(1.0, std::min(exponent, 1022));
+	}
+	for (size_t idim = 0; idim < 3; idim++) seeds_origin[idim] = seeds_scale * trunc(seeds_origin[idim] / seeds_scale);
+
+	double* unit_seeds = new double[num_seeds * 3];
+	for (size_t i = 0; i < num_seeds * 3; i++) unit_seeds[i] = (seeds[i] - seeds_origin[i % 3]) / seeds_scale;
+
 	size_t tree_origin(SIZE_MAX);
 	size_t* tree_right = new size_t[num_seeds]; size_t* tree_left = new size_t[num_seeds];
-	build_balanced_kd_tree(num_seeds, 3, seeds, tree_origin, tree_right, tree_left);
+	build_balanced_kd_tree(num_seeds, 3, unit_seeds, tree_origin, tree_right, tree_left);
 
 	// enumerate 
 	double* seeds_sorted = new double[num_seeds * 3]; size_t* seed_old_index = new size_t[num_seeds]; size_t* seed_new_index = new size_t[num_seeds];
-	re_enumerate_points_for_better_memory_access(num_seeds, 3, seeds, tree_origin, tree_right, tree_left, seeds_sorted, seed_old_index, seed_new_index);
+	re_enumerate_points_for_better_memory_access(num_seeds, 3, unit_seeds, tree_origin, tree_right, tree_left, seeds_sorted, seed_old_index, seed_new_index);
 
 	bool* ghost_seed = new bool[num_seeds];
 	for (int iseed = 0; iseed < num_seeds; iseed++)
@@ -1661,7 +1685,7 @@ int MeshingVoronoiMesher::generate_3d_voronoi_mesh(int num_threads, size_t num_s
 		if (seed_region_id[old_seed_index] == 0) continue;
 
 		if (get_3d_Voronoi_cell(num_seeds, seeds_sorted, tree_origin, tree_right, tree_left, 
-			                    iseed, 2.0 * seed_sizing[old_seed_index], ghost_seed,
+			                    iseed, 2.0 * (seed_sizing[old_seed_index] / seeds_scale), ghost_seed,
 			                    num_cell_corners[old_seed_index], cell_corners[old_seed_index], 
 			                    cell_corner_neighbors[old_seed_index], cell_corner_seeds[old_seed_index], cell_corner_indices[old_seed_index]) != 0)
 		{
@@ -1677,7 +1701,7 @@ int MeshingVoronoiMesher::generate_3d_voronoi_mesh(int num_threads, size_t num_s
 	}
 
 	delete[] ghost_seed; delete[] seeds_sorted; delete[] tree_right; delete[] tree_left;
-	delete[] seed_old_index; delete[] seed_new_index;
+	delete[] seed_old_index; delete[] seed_new_index; delete[] unit_seeds;
 	
 	if (num_unbounded_cells > 0)
 	{
@@ -1776,9 +1800,10 @@ int MeshingVoronoiMesher::generate_3d_voronoi_mesh(int num_threads, size_t num_s
 		{
 			if (cell_corner_indices[iseed][icorner * 3] != iseed) continue; // vertex is assigned to another cell
 			if (cell_corner_indices[iseed][icorner * 3 + 1] != icorner) continue; // vertex is assigned to another corner
-			vertices[vtx_index * 3] = cell_corners[iseed][icorner * 3];
-			vertices[vtx_index * 3 + 1] = cell_corners[iseed][icorner * 3 + 1];
-			vertices[vtx_index * 3 + 2] = cell_corners[iseed][icorner * 3 + 2];
+			for (size_t idim = 0; idim < 3; idim++)
+			{
+				vertices[vtx_index * 3 + idim] = seeds_origin[idim] + seeds_scale * cell_corners[iseed][icorner * 3 + idim];
+			}
 			vtx_index++;
 		}
 		delete[] cell_corners[iseed];
-- 
2.43.0


From 0092df472ce9f7fafab6d4388f32fed47da616eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:27 +0000
Subject: [PATCH 21/23] fix: list existing seeds as the closest seeds of the
 monitoring points

---
 src/Meshing/MeshingVoroCrust.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Meshing/MeshingVoroCrust.cpp b/src/Meshing/MeshingVoroCrust.cpp
index 99bda25..91b9372 100644
--- a/src/Meshing/MeshingVoroCrust.cpp
+++ b/src/Meshing/MeshingVoroCrust.cpp
@@ -499,6 +499,7 @@ int MeshingVoroCrust::generate_interior_seeds(MeshingSmartTree* seeds_tree, Mesh
 		MeshingSmartTree seeds_tree(3, num_seeds, seeds_);
 
 		size_t num_invalidated(0);
+		size_t* invalidated_seeds = new size_t[num_seeds];
 		bool* valid_seed = new bool[num_seeds];
 		for (size_t iseed = 0; iseed < num_seeds; iseed++) valid_seed[iseed] = true;
 
@@ -522,6 +523,7 @@ int MeshingVoroCrust::generate_interior_seeds(MeshingSmartTree* seeds_tree, Mesh
 					if (valid_seed[seed_index] && seed_index >= num_critical_seeds + num_imposed_seeds_added)
 					{
 						valid_seed[seed_index] = false;
+						invalidated_seeds[num_invalidated] = seed_index;
 						num_invalidated++;
 					}
 				}
@@ -535,7 +537,7 @@ int MeshingVoroCrust::generate_interior_seeds(MeshingSmartTree* seeds_tree, Mesh
 
 			// find closest point in seeds .. if distance in zero, make sure this sphere has no interior seeds
 			size_t iclosest(SIZE_MAX); double hclosest(DBL_MAX);
-			seeds_tree.get_closest_tree_point(x, iclosest, hclosest);
+			seeds_tree.get_closest_tree_point(x, num_invalidated, invalidated_seeds, iclosest, hclosest); // a removed seed is no seed
 
 			if (hclosest < 1E-10)
 				continue;
@@ -578,7 +580,7 @@ int MeshingVoroCrust::generate_interior_seeds(MeshingSmartTree* seeds_tree, Mesh
 
 		delete[] x;
 
-		delete[] valid_seed;
+		delete[] valid_seed; delete[] invalidated_seeds;
 
 		vcm_cout << "  * executed in " << timer.report_timing() << " seconds!" << std::endl;
 	}
-- 
2.43.0


From ca5883d0c610f1d809488dac9f9701a44a8f0f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:27 +0000
Subject: [PATCH 22/23] fix: heap write when no seed lies inside a region (open
 surfaces)

---
 src/Meshing/MeshingVoronoiMesher.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Meshing/MeshingVoronoiMesher.cpp b/src/Meshing/MeshingVoronoiMesher.cpp
index 0def87f..412ed45 100644
--- a/src/Meshing/MeshingVoronoiMesher.cpp
+++ b/src/Meshing/MeshingVoronoiMesher.cpp
@@ -1039,8 +1039,8 @@ int MeshingVoronoiMesher::generate_interior_seeds(size_t& num_seeds, double*& se
 
 		for (size_t iactive = 0; iactive < num_front_seeds; iactive++) is_active_seed[iactive] = false;
 
-		int num_good_seeds(1); is_active_seed[0] = true;
-		for (size_t i = 1; i < num_front_seeds; i++)
+		int num_good_seeds(0); // the front is empty if no seed lies inside
+		for (size_t i = 0; i < num_front_seeds; i++)
 		{
 			size_t si_index = front_indices[i];
 
-- 
2.43.0


From 33e33ecac29487d2e00edd7d3b64a04fed6c022a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:43 +0000
Subject: [PATCH 23/23] fix: the second edge sphere is limited by the first one
 as well

---
 src/Meshing/MeshingVoroCrustSampler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Meshing/MeshingVoroCrustSampler.cpp b/src/Meshing/MeshingVoroCrustSampler.cpp
index 72fc347..aa6b9bf 100644
--- a/src/Meshing/MeshingVoroCrustSampler.cpp
+++ b/src/Meshing/MeshingVoroCrustSampler.cpp
@@ -1231,7 +1231,7 @@ int MeshingVoroCrustSampler::generate_edge_spheres(size_t num_points, double** p
 				corner_spheres->get_closest_non_smooth_tree_edge_point(new_sphere, feature_TOL, smooth_angle_threshold, iclosest, hclosest);
 				edge_sz = fmin(edge_sz, alpha_sz * hclosest);
 
-				if (num_samples > 1)
+				if (num_samples > 0)
 				{
 					new_sphere[3] = fmin(fmin(surf_sz, edge_sz), rmax);   // not the radius of the previous sample
 					size_t num_nearby_spheres_s(0); size_t* nearby_spheres_s(0);
-- 
2.43.0

