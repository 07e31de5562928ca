From 77401e1cee7ab904c56d646383a30ea27ee265e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:11 +0000
Subject: [PATCH 01/12] fix: flood grains only across shared faces

run_flooding() descended into all children of a refined neighbor, also into
those not adjacent to the current cell. Two regions separated by a layer of
fine cells were then merged into one particle or not depending on the order
in which cells are visited and on how the mesh is distributed.
---
 .../grain_tracker/distributed_stitching.h     | 30 ++++++++++++++-----
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/include/pf-applications/grain_tracker/distributed_stitching.h b/include/pf-applications/grain_tracker/distributed_stitching.h
index 88c6108..d547b20 100644
--- a/include/pf-applications/grain_tracker/distributed_stitching.h
+++ b/include/pf-applications/grain_tracker/distributed_stitching.h
@@ -87,15 +87,31 @@ namespace GrainTracker
 
     unsigned int counter = 1;
 
+    const auto flood = [&](const auto &neighbor) {
+      counter += run_flooding<dim>(neighbor,
+                                   solution,
+                                   particle_ids,
+                                   id,
+                                   max_value,
+                                   threshold_lower,
+                                   invalid_particle_id);
+    };
+
     for (const auto face : cell->face_indices())
       if (cell->at_boundary(face) == false)
-        counter += run_flooding<dim>(cell->neighbor(face),
-                                     solution,
-                                     particle_ids,
-                                     id,
-                                     max_value,
-                                     threshold_lower,
-                                     invalid_particle_id);
+        {
+          // If the neighbor is refined, then visit only those of its children
+          // which share the face with the current cell
+          if (cell->neighbor(face)->has_children())
+            for (unsigned int subface = 0;
+                 subface <
+                 GeometryInfo<dim>::n_subfaces(
+                   dealii::internal::SubfaceCase<dim>::case_isotropic);
+                 ++subface)
+              flood(cell->neighbor_child_on_subface(face, subface));
+          else
+            flood(cell->neighbor(face));
+        }
 
     return counter;
   }
-- 
2.43.0


From 04ae225cc490e3f6a57e4e4c35af25b4804e54b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:11 +0000
Subject: [PATCH 02/12] fix: take maximum over all local parts of a particle

If a rank owns several disconnected parts of one stitched particle, the
maximum value of the part visited last overwrote those of the others.
---
 .../pf-applications/grain_tracker/distributed_stitching.h    | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/pf-applications/grain_tracker/distributed_stitching.h b/include/pf-applications/grain_tracker/distributed_stitching.h
index d547b20..6eadcfd 100644
--- a/include/pf-applications/grain_tracker/distributed_stitching.h
+++ b/include/pf-applications/grain_tracker/distributed_stitching.h
@@ -260,7 +260,10 @@ namespace GrainTracker
 
           AssertIndexRange(unique_id, n_particles);
 
-          particle_max_values[unique_id] = local_particle_max_values[local_id];
+          // Multiple local particles can be parts of the same global one
+          particle_max_values[unique_id] =
+            std::max(particle_max_values[unique_id],
+                     local_particle_max_values[local_id]);
         }
 
     // Reduce information - particles max values
-- 
2.43.0


From 935a7e4c1f974cd457b2c552fc66493443f0497d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:11 +0000
Subject: [PATCH 03/12] fix: do not dereference end of empty set of order
 parameters

reassign_grains() accessed the last active order parameter even if no grains
had been detected at all.
---
 include/pf-applications/grain_tracker/tracker.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/pf-applications/grain_tracker/tracker.h b/include/pf-applications/grain_tracker/tracker.h
index ef85d8b..80714b5 100644
--- a/include/pf-applications/grain_tracker/tracker.h
+++ b/include/pf-applications/grain_tracker/tracker.h
@@ -1569,6 +1569,14 @@ namespace GrainTracker
       ScopedName sc("reassign_grains");
       MyScope    scope(timer, sc, timer.is_enabled());
 
+      // Nothing to reassign if there are no grains
+      if (grains.empty())
+        {
+          active_order_parameters.clear();
+
+          return std::make_tuple(0u, false);
+        }
+
       bool grains_reassigned = false;
 
       std::vector<std::string> log;
-- 
2.43.0


From fd3af76352f93208d78168aec642f63ad1d5d8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:10 +0000
Subject: [PATCH 04/12] fix: consider only face neighbors as direct neighbors

For a refined neighbor all its children were treated as adjacent, including
those which do not share a face with the cell. Whether these were available
depended on the distribution of the mesh.
---
 .../grain_tracker/distributed_stitching.h     | 33 +++++++++++--------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/include/pf-applications/grain_tracker/distributed_stitching.h b/include/pf-applications/grain_tracker/distributed_stitching.h
index 6eadcfd..fd41b9d 100644
--- a/include/pf-applications/grain_tracker/distributed_stitching.h
+++ b/include/pf-applications/grain_tracker/distributed_stitching.h
@@ -1106,21 +1106,28 @@ namespace GrainTracker
                           }
                         else
                           {
-                            for (const auto &child :
-                                 neighbor->child_iterators())
-                              if (child->is_active() && !child->is_artificial())
-                                {
-                                  const auto child_pid_j = particle_ids.block(
-                                    j)[child->global_active_cell_index()];
+                            // Only the children sharing the face are neighbors
+                            for (unsigned int subface = 0;
+                                 subface < GeometryInfo<dim>::n_subfaces(
+                                             dealii::internal::SubfaceCase<
+                                               dim>::case_isotropic);
+                                 ++subface)
+                              {
+                                const auto child =
+                                  cell->neighbor_child_on_subface(face,
+                                                                  subface);
 
-                                  if (child_pid_j != invalid_particle_id)
-                                    {
-                                      const auto pj =
-                                        std::make_pair(j, child_pid_j);
+                                const auto child_pid_j = particle_ids.block(
+                                  j)[child->global_active_cell_index()];
 
-                                      add_neighbors(pi, pj);
-                                    }
-                                }
+                                if (child_pid_j != invalid_particle_id)
+                                  {
+                                    const auto pj =
+                                      std::make_pair(j, child_pid_j);
+
+                                    add_neighbors(pi, pj);
+                                  }
+                              }
                           }
                       }
                 }
-- 
2.43.0


From 6ad3cd91b274c6ff5f67a72c59ffc5609bb2890a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:12 +0000
Subject: [PATCH 05/12] fix: initialize distances of all particle cells

Cells of a particle whose void neighbor is owned by another rank kept the
invalid value -1 that then entered the estimated distance.
---
 .../grain_tracker/distributed_stitching.h           | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/pf-applications/grain_tracker/distributed_stitching.h b/include/pf-applications/grain_tracker/distributed_stitching.h
index fd41b9d..2169fae 100644
--- a/include/pf-applications/grain_tracker/distributed_stitching.h
+++ b/include/pf-applications/grain_tracker/distributed_stitching.h
@@ -716,12 +716,15 @@ namespace GrainTracker
       return std::pow(2, max_level - cell.level());
     };
 
-    // Set zero distances
+    // Set zero distances for all cells of the particles: not only those at the
+    // front, since the front may also start from the neighboring rank
     particle_distances = invalid_particle_id;
-    for (const auto &agglomeration : agglomerations)
-      for (const auto &cell : agglomeration)
-        particle_distances[cell.global_active_cell_index()] =
-          cell_weight(cell) - 1;
+    for (const auto &cell : dof_handler.active_cell_iterators())
+      if (cell->is_locally_owned() &&
+          particle_markers[cell->global_active_cell_index()] !=
+            invalid_particle_id)
+        particle_distances[cell->global_active_cell_index()] =
+          cell_weight(*cell) - 1;
 
     // We store distances here
     std::map<std::pair<unsigned int, unsigned int>, double>
-- 
2.43.0


From 208de97559a6104dc751e17934a6f44c73d3076e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:33 +0000
Subject: [PATCH 06/12] fix: detect particle fronts meeting at a boundary
 between ranks

The distance between two particles whose fronts meet exactly at the boundary
between two ranks was not estimated at all, so the particles were considered
as infinitely distant by the wavefront representation.
---
 .../grain_tracker/distributed_stitching.h     | 40 ++++++++++++++++---
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/include/pf-applications/grain_tracker/distributed_stitching.h b/include/pf-applications/grain_tracker/distributed_stitching.h
index 2169fae..bfbea60 100644
--- a/include/pf-applications/grain_tracker/distributed_stitching.h
+++ b/include/pf-applications/grain_tracker/distributed_stitching.h
@@ -876,9 +876,8 @@ namespace GrainTracker
      * defines a weight of a cell contributing to the distance evaluations: the
      * finest cells have weight equals to 1 and larger ones have bigger weights,
      * see below the formula. */
-    bool       do_process_agglomerations = check_agglomerations();
-    bool       do_update_ghosts          = check_ghosts_cache();
-    const bool need_to_zero_out          = do_update_ghosts;
+    bool do_process_agglomerations = check_agglomerations();
+    bool do_update_ghosts          = check_ghosts_cache();
     while (do_process_agglomerations)
       {
         // Pick the nearest agglomeration set - copy it
@@ -982,9 +981,40 @@ namespace GrainTracker
         do_update_ghosts          = check_ghosts_cache();
       }
 
+    /* Cliques which meet exactly at the boundary between two ranks have not been
+     * noticed above, since there only pairs of locally owned cells are tested
+     * for collisions. */
+    particle_markers.update_ghost_values();
+    particle_distances.update_ghost_values();
+
+    for (const auto &cell : dof_handler.active_cell_iterators())
+      if (cell->is_locally_owned() &&
+          particle_markers[cell->global_active_cell_index()] !=
+            invalid_particle_id)
+        for (const auto face : cell->face_indices())
+          if (!cell->at_boundary(face))
+            {
+              const auto test_collision = [&](const auto &neighbor) {
+                if (neighbor->is_ghost() &&
+                    particle_markers[neighbor->global_active_cell_index()] !=
+                      invalid_particle_id)
+                  handle_cells(*cell, *neighbor);
+              };
+
+              if (cell->neighbor(face)->has_children())
+                for (unsigned int subface = 0;
+                     subface <
+                     GeometryInfo<dim>::n_subfaces(
+                       dealii::internal::SubfaceCase<dim>::case_isotropic);
+                     ++subface)
+                  test_collision(
+                    cell->neighbor_child_on_subface(face, subface));
+              else
+                test_collision(cell->neighbor(face));
+            }
+
     particle_markers.zero_out_ghost_values();
-    if (need_to_zero_out)
-      particle_distances.zero_out_ghost_values();
+    particle_distances.zero_out_ghost_values();
 
     // Convert map to a vector
     std::vector<double> distances_flatten;
-- 
2.43.0


From 6468b279e5da82582b9513b80f16791ea1346af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:36 +0000
Subject: [PATCH 07/12] fix: ellipsoids with coinciding centers overlap

distance() threw an exception if two grains happen to have the same center,
e.g. a grain enclosed by another one, and terminated the simulation.
---
 include/pf-applications/grain_tracker/ellipsoid.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/pf-applications/grain_tracker/ellipsoid.h b/include/pf-applications/grain_tracker/ellipsoid.h
index 3ea3c0a..30ec1c8 100644
--- a/include/pf-applications/grain_tracker/ellipsoid.h
+++ b/include/pf-applications/grain_tracker/ellipsoid.h
@@ -432,8 +432,10 @@ namespace GrainTracker
     const auto eps_d = std::sqrt(2 * tol / (E1.get_r_max() + E2.get_r_max()));
 
     const auto c2c1_init = c2 - c1;
-    AssertThrow(c2c1_init.norm() > tol,
-                ExcMessage("Ellipses centers coincide"));
+
+    // Ellipsoids with the same center always overlap
+    if (c2c1_init.norm() <= tol)
+      return {0, 0, true};
 
     Number       dist          = c2c1_init.norm();
     unsigned int iter          = 0;
-- 
2.43.0


From 9c1ef979f9bf5e321dcd35e653107ae04377032d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:07 +0000
Subject: [PATCH 08/12] fix: do not build degenerate ellipsoids for single cell
 thick particles

---
 .../pf-applications/grain_tracker/ellipsoid.h | 34 ++++++++++++++++---
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/include/pf-applications/grain_tracker/ellipsoid.h b/include/pf-applications/grain_tracker/ellipsoid.h
index 30ec1c8..20f08ab 100644
--- a/include/pf-applications/grain_tracker/ellipsoid.h
+++ b/include/pf-applications/grain_tracker/ellipsoid.h
@@ -32,6 +32,25 @@ namespace GrainTracker
 {
   using namespace dealii;
 
+  namespace internal
+  {
+    /* Convert a squared radius obtained from the moments of inertia to the
+     * radius. The moments are evaluated from the cell centers, so a particle
+     * which is only a single cell thick has a zero (or, due to the round-off
+     * errors, even a slightly negative) squared radius. The ellipsoid would then
+     * be degenerate, so we take a half of its characteristic size instead. */
+    template <typename Number>
+    Number
+    regularize_radius(const Number radius_squared, const Number size)
+    {
+      const Number tol = 1e-6;
+
+      return (radius_squared > tol * tol * size * size) ?
+               std::sqrt(radius_squared) :
+               Number(0.5 * size);
+    }
+  } // namespace internal
+
   /* This function gets the radii a, b, and c of an ellipsoid in 3D for the
    * given values values of the principal moments of inertia which are given by
    * I0 = 1/4 * M * b^2
@@ -50,8 +69,10 @@ namespace GrainTracker
     const auto &I1 = principal_moments[1];
 
     std::array<Number, 2> radii;
-    radii[0] = std::sqrt(4. / measure * I1);
-    radii[1] = std::sqrt(4. / measure * I0);
+    const Number size = std::sqrt(measure);
+
+    radii[0] = internal::regularize_radius(4. / measure * I1, size);
+    radii[1] = internal::regularize_radius(4. / measure * I0, size);
 
     return radii;
   }
@@ -74,9 +95,12 @@ namespace GrainTracker
     const auto &I2 = principal_moments[2];
 
     std::array<Number, 3> radii;
-    radii[0] = std::sqrt(2.5 / measure * (I1 + I2 - I0));
-    radii[1] = std::sqrt(2.5 / measure * (I0 + I2 - I1));
-    radii[2] = std::sqrt(2.5 / measure * (I0 + I1 - I2));
+    const Number size = std::cbrt(measure);
+    const Number fac  = 2.5 / measure;
+
+    radii[0] = internal::regularize_radius(fac * (I1 + I2 - I0), size);
+    radii[1] = internal::regularize_radius(fac * (I0 + I2 - I1), size);
+    radii[2] = internal::regularize_radius(fac * (I0 + I1 - I2), size);
 
     return radii;
   }
-- 
2.43.0


From 8b6d12cbec76624a74da7487a12fba3eba142a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:07 +0000
Subject: [PATCH 09/12] fix: single owner of the most remote particle point

---
 .../grain_tracker/distributed_stitching.h     | 25 ++++++++++++++++---
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/include/pf-applications/grain_tracker/distributed_stitching.h b/include/pf-applications/grain_tracker/distributed_stitching.h
index bfbea60..2de6a22 100644
--- a/include/pf-applications/grain_tracker/distributed_stitching.h
+++ b/include/pf-applications/grain_tracker/distributed_stitching.h
@@ -390,12 +390,29 @@ namespace GrainTracker
     // Exchange the remote points
     if (evaluate_remotes)
       {
+        const unsigned int rank = Utilities::MPI::this_mpi_process(comm);
+
+        // Multiple ranks may have a point located at the largest distance, the
+        // one with the lowest number is then considered as its owner.
+        std::vector<unsigned int> particle_owners(n_particles);
+        for (unsigned int unique_id = 0; unique_id < n_particles; ++unique_id)
+          particle_owners[unique_id] =
+            (std::abs(particle_radii[unique_id] -
+                      particle_radii_local[unique_id]) > 1e-16) ?
+              numbers::invalid_unsigned_int :
+              rank;
+
+        MPI_Allreduce(MPI_IN_PLACE,
+                      particle_owners.data(),
+                      particle_owners.size(),
+                      MPI_UNSIGNED,
+                      MPI_MIN,
+                      comm);
+
         // If the current rank is not the owner of the furthest point, then we
         // nullify it since we perform a global summation later.
-        for (unsigned int unique_id = 0; unique_id < particle_radii.size();
-             ++unique_id)
-          if (std::abs(particle_radii[unique_id] -
-                       particle_radii_local[unique_id]) > 1e-16)
+        for (unsigned int unique_id = 0; unique_id < n_particles; ++unique_id)
+          if (particle_owners[unique_id] != rank)
             particle_remotes[unique_id] = Point<dim>();
 
         // Perform global communication
-- 
2.43.0


From dec70e90d37c9652be8730a7863ab13f59d637c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:07 +0000
Subject: [PATCH 10/12] fix: compare distances of all candidates when
 transferring grain ids

---
 .../pf-applications/grain_tracker/tracking.h  | 64 ++++++++-----------
 1 file changed, 28 insertions(+), 36 deletions(-)

diff --git a/include/pf-applications/grain_tracker/tracking.h b/include/pf-applications/grain_tracker/tracking.h
index 7bc200f..4fa820d 100644
--- a/include/pf-applications/grain_tracker/tracking.h
+++ b/include/pf-applications/grain_tracker/tracking.h
@@ -129,46 +129,38 @@ namespace GrainTracker
                   {
                     // Perform manual sorting among the candidates, since
                     // bgi::nearest() outputs the closest to the face of the
-                    // box, not the box having the closest center. Note that we
-                    // also compute distances if old_grain_id has been set -
-                    // this may happen for the situation when a new grain has
-                    // multiple segments.
-                    if (result.size() > 1 ||
-                        old_grain_id != numbers::invalid_unsigned_int)
+                    // box, not the box having the closest center. Note that the
+                    // distance is computed even if there is a single candidate
+                    // only, since it has to be compared with the candidates of
+                    // the other segments of the new grain, if there are any.
+                    for (const auto &id : result)
                       {
-                        for (const auto &id : result)
+                        const unsigned int candidate_grain_id =
+                          old_segments_to_grains[id];
+
+                        // Compute the segment id
+                        unsigned int work_id = id;
+                        for (; work_id > 0 &&
+                               old_segments_to_grains[work_id - 1] ==
+                                 old_segments_to_grains[work_id];
+                             --work_id)
+                          ;
+                        const unsigned int segment_id = id - work_id;
+
+                        const auto &candidate_segment =
+                          old_grains.at(candidate_grain_id)
+                            .get_segments()[segment_id];
+
+                        const auto curent_dist =
+                          candidate_segment.get_center().distance(
+                            new_segment.get_center());
+
+                        if (curent_dist < min_dist)
                           {
-                            const unsigned int candidate_grain_id =
-                              old_segments_to_grains[id];
-
-                            // Compute the segment id
-                            unsigned int work_id = id;
-                            for (; work_id > 0 &&
-                                   old_segments_to_grains[work_id - 1] ==
-                                     old_segments_to_grains[work_id];
-                                 --work_id)
-                              ;
-                            const unsigned int segment_id = id - work_id;
-
-                            const auto &candidate_segment =
-                              old_grains.at(candidate_grain_id)
-                                .get_segments()[segment_id];
-
-                            const auto curent_dist =
-                              candidate_segment.get_center().distance(
-                                new_segment.get_center());
-
-                            if (curent_dist < min_dist)
-                              {
-                                old_grain_id = candidate_grain_id;
-                                min_dist     = curent_dist;
-                              }
+                            old_grain_id = candidate_grain_id;
+                            min_dist     = curent_dist;
                           }
                       }
-                    else
-                      {
-                        old_grain_id = old_segments_to_grains[result[0]];
-                      }
                   }
               }
 
-- 
2.43.0


From 9029259e286451d1585406117c60e5ab30ce5e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:09 +0000
Subject: [PATCH 11/12] fix: flood grains without recursion

---
 .../grain_tracker/distributed_stitching.h     | 244 +++++++++---------
 1 file changed, 123 insertions(+), 121 deletions(-)

diff --git a/include/pf-applications/grain_tracker/distributed_stitching.h b/include/pf-applications/grain_tracker/distributed_stitching.h
index 2de6a22..db6f9a2 100644
--- a/include/pf-applications/grain_tracker/distributed_stitching.h
+++ b/include/pf-applications/grain_tracker/distributed_stitching.h
@@ -47,71 +47,72 @@ namespace GrainTracker
                const double threshold_lower     = 0,
                const double invalid_particle_id = -1.0)
   {
-    if (cell->has_children())
+    unsigned int counter = 0;
+
+    // The cells to be visited are stored explicitly: a recursion would be as
+    // deep as the number of the cells of the particle and could therefore
+    // exhaust the call stack.
+    std::vector<typename DoFHandler<dim>::cell_iterator> cells_to_visit;
+    cells_to_visit.push_back(cell);
+
+    Vector<double> values;
+
+    while (!cells_to_visit.empty())
       {
-        unsigned int counter = 0;
-
-        for (const auto &child : cell->child_iterators())
-          counter += run_flooding<dim>(child,
-                                       solution,
-                                       particle_ids,
-                                       id,
-                                       max_value,
-                                       threshold_lower,
-                                       invalid_particle_id);
-
-        return counter;
-      }
+        const auto current = cells_to_visit.back();
+        cells_to_visit.pop_back();
 
-    if (cell->is_locally_owned() == false)
-      return 0;
+        if (current->has_children())
+          {
+            for (const auto &child : current->child_iterators())
+              cells_to_visit.push_back(child);
 
-    const auto particle_id = particle_ids[cell->global_active_cell_index()];
+            continue;
+          }
 
-    if (particle_id != invalid_particle_id)
-      return 0; // cell has been visited
+        if (current->is_locally_owned() == false)
+          continue;
 
-    Vector<double> values(cell->get_fe().n_dofs_per_cell());
+        const auto particle_id =
+          particle_ids[current->global_active_cell_index()];
 
-    cell->get_dof_values(solution, values);
+        if (particle_id != invalid_particle_id)
+          continue; // cell has been visited
 
-    const auto cell_max_value = *std::max_element(values.begin(), values.end());
-    const bool has_particle   = cell_max_value > threshold_lower;
+        values.reinit(current->get_fe().n_dofs_per_cell());
 
-    if (!has_particle)
-      return 0; // cell has no particle
+        current->get_dof_values(solution, values);
 
-    particle_ids[cell->global_active_cell_index()] = id;
+        const auto cell_max_value =
+          *std::max_element(values.begin(), values.end());
+        const bool has_particle = cell_max_value > threshold_lower;
 
-    max_value = std::max(max_value, cell_max_value);
+        if (!has_particle)
+          continue; // cell has no particle
 
-    unsigned int counter = 1;
+        particle_ids[current->global_active_cell_index()] = id;
 
-    const auto flood = [&](const auto &neighbor) {
-      counter += run_flooding<dim>(neighbor,
-                                   solution,
-                                   particle_ids,
-                                   id,
-                                   max_value,
-                                   threshold_lower,
-                                   invalid_particle_id);
-    };
+        max_value = std::max(max_value, cell_max_value);
 
-    for (const auto face : cell->face_indices())
-      if (cell->at_boundary(face) == false)
-        {
-          // If the neighbor is refined, then visit only those of its children
-          // which share the face with the current cell
-          if (cell->neighbor(face)->has_children())
-            for (unsigned int subface = 0;
-                 subface <
-                 GeometryInfo<dim>::n_subfaces(
-                   dealii::internal::SubfaceCase<dim>::case_isotropic);
-                 ++subface)
-              flood(cell->neighbor_child_on_subface(face, subface));
-          else
-            flood(cell->neighbor(face));
-        }
+        ++counter;
+
+        for (const auto face : current->face_indices())
+          if (current->at_boundary(face) == false)
+            {
+              // If the neighbor is refined, then visit only those of its
+              // children which share the face with the current cell
+              if (current->neighbor(face)->has_children())
+                for (unsigned int subface = 0;
+                     subface <
+                     GeometryInfo<dim>::n_subfaces(
+                       dealii::internal::SubfaceCase<dim>::case_isotropic);
+                     ++subface)
+                  cells_to_visit.push_back(
+                    current->neighbor_child_on_subface(face, subface));
+              else
+                cells_to_visit.push_back(current->neighbor(face));
+            }
+      }
 
     return counter;
   }
@@ -573,95 +574,96 @@ namespace GrainTracker
       std::deque<std::vector<DoFCellAccessor<dim, dim, false>>> &agglomerations,
       const double invalid_particle_id = -1.0)
     {
-      if (cell->has_children())
+      // Similarly to run_flooding(), a recursion is avoided here since its depth
+      // would be proportional to the number of the cells of the particles.
+      std::vector<typename DoFHandler<dim>::cell_iterator> cells_to_visit;
+      cells_to_visit.push_back(cell);
+
+      while (!cells_to_visit.empty())
         {
-          for (const auto &child : cell->child_iterators())
-            run_flooding_prep<dim>(child,
-                                   particle_ids,
-                                   particle_markers,
-                                   agglomerations,
-                                   invalid_particle_id);
-
-          return;
-        }
+          const auto current = cells_to_visit.back();
+          cells_to_visit.pop_back();
+
+          if (current->has_children())
+            {
+              for (const auto &child : current->child_iterators())
+                cells_to_visit.push_back(child);
 
-      if (!cell->is_locally_owned())
-        return;
+              continue;
+            }
 
-      const auto particle_id = particle_ids[cell->global_active_cell_index()];
+          if (!current->is_locally_owned())
+            continue;
 
-      // If cell does not belong to any particle - skip it
-      if (particle_id == invalid_particle_id)
-        return;
+          const auto particle_id =
+            particle_ids[current->global_active_cell_index()];
 
-      const auto particle_marker =
-        particle_markers[cell->global_active_cell_index()];
+          // If cell does not belong to any particle - skip it
+          if (particle_id == invalid_particle_id)
+            continue;
 
-      // If cell has been visited - skip it
-      if (particle_marker != invalid_particle_id)
-        return;
+          const auto particle_marker =
+            particle_markers[current->global_active_cell_index()];
 
-      // Use global particle ids for markers
-      particle_markers[cell->global_active_cell_index()] = particle_id;
+          // If cell has been visited - skip it
+          if (particle_marker != invalid_particle_id)
+            continue;
 
-      for (const auto face : cell->face_indices())
-        if (!cell->at_boundary(face))
-          {
-            const auto neighbor = cell->neighbor(face);
+          // Use global particle ids for markers
+          particle_markers[current->global_active_cell_index()] = particle_id;
 
-            if (!neighbor->has_children())
+          for (const auto face : current->face_indices())
+            if (!current->at_boundary(face))
               {
-                const auto neighbor_particle_id =
-                  particle_ids[neighbor->global_active_cell_index()];
+                const auto neighbor = current->neighbor(face);
 
-                if (neighbor_particle_id == invalid_particle_id)
-                  agglomerations[agglomerations.size() - cell->level() - 1]
-                    .push_back(*cell);
+                if (!neighbor->has_children())
+                  {
+                    const auto neighbor_particle_id =
+                      particle_ids[neighbor->global_active_cell_index()];
+
+                    if (neighbor_particle_id == invalid_particle_id)
+                      agglomerations[agglomerations.size() - current->level() -
+                                     1]
+                        .push_back(*current);
+                    else
+                      cells_to_visit.push_back(neighbor);
+                  }
                 else
-                  run_flooding_prep<dim>(neighbor,
-                                         particle_ids,
-                                         particle_markers,
-                                         agglomerations,
-                                         invalid_particle_id);
-              }
-            else
-              {
-                for (const auto &child : neighbor->child_iterators())
                   {
-                    if (!child->is_active() || !child->is_locally_owned())
-                      continue;
+                    for (const auto &child : neighbor->child_iterators())
+                      {
+                        if (!child->is_active() || !child->is_locally_owned())
+                          continue;
 
-                    const auto child_particle_id =
-                      particle_ids[child->global_active_cell_index()];
+                        const auto child_particle_id =
+                          particle_ids[child->global_active_cell_index()];
 
-                    if (child_particle_id == invalid_particle_id)
-                      {
-                        for (const auto child_face : child->face_indices())
-                          if (!child->at_boundary(child_face))
-                            {
-                              const auto neighbor_of_child =
-                                child->neighbor(child_face);
-
-                              if (neighbor_of_child->is_active() &&
-                                  neighbor_of_child->is_locally_owned() &&
-                                  neighbor_of_child->id() == cell->id())
+                        if (child_particle_id == invalid_particle_id)
+                          {
+                            for (const auto child_face : child->face_indices())
+                              if (!child->at_boundary(child_face))
                                 {
-                                  agglomerations[agglomerations.size() -
-                                                 cell->level() - 1]
-                                    .push_back(*cell);
-                                  break;
+                                  const auto neighbor_of_child =
+                                    child->neighbor(child_face);
+
+                                  if (neighbor_of_child->is_active() &&
+                                      neighbor_of_child->is_locally_owned() &&
+                                      neighbor_of_child->id() == current->id())
+                                    {
+                                      agglomerations[agglomerations.size() -
+                                                     current->level() - 1]
+                                        .push_back(*current);
+                                      break;
+                                    }
                                 }
-                            }
+                          }
                       }
-                  }
 
-                run_flooding_prep<dim>(neighbor,
-                                       particle_ids,
-                                       particle_markers,
-                                       agglomerations,
-                                       invalid_particle_id);
+                    cells_to_visit.push_back(neighbor);
+                  }
               }
-          }
+        }
     }
   } // namespace internal
 
-- 
2.43.0


From ee13b38d8a87c44ff665109a4ac43a20b7d199c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:09 +0000
Subject: [PATCH 12/12] fix: flood pores without recursion and across shared
 faces

---
 .../sintering/postprocessors.h                | 94 +++++++++++--------
 1 file changed, 57 insertions(+), 37 deletions(-)

diff --git a/applications/sintering/include/pf-applications/sintering/postprocessors.h b/applications/sintering/include/pf-applications/sintering/postprocessors.h
index d8bd2a1..ce1e573 100644
--- a/applications/sintering/include/pf-applications/sintering/postprocessors.h
+++ b/applications/sintering/include/pf-applications/sintering/postprocessors.h
@@ -1151,54 +1151,74 @@ namespace Sintering
         const double invalid_particle_id                               = -1.0,
         std::shared_ptr<const BoundingBoxFilter<dim>> box_filter = nullptr)
       {
-        if (cell->has_children())
+        unsigned int counter = 0;
+
+        // The cells to be visited are stored explicitly: a recursion would be
+        // as deep as the number of the cells of the pore and could therefore
+        // exhaust the call stack.
+        std::vector<typename DoFHandler<dim>::cell_iterator> cells_to_visit;
+        cells_to_visit.push_back(cell);
+
+        Vector<double> values;
+
+        while (!cells_to_visit.empty())
           {
-            unsigned int counter = 0;
-
-            for (const auto &child : cell->child_iterators())
-              counter += run_flooding<dim>(child,
-                                           solution,
-                                           particle_ids,
-                                           id,
-                                           threshold_upper,
-                                           invalid_particle_id,
-                                           box_filter);
+            const auto current = cells_to_visit.back();
+            cells_to_visit.pop_back();
 
-            return counter;
-          }
+            if (current->has_children())
+              {
+                for (const auto &child : current->child_iterators())
+                  cells_to_visit.push_back(child);
+
+                continue;
+              }
+
+            if (current->is_locally_owned() == false ||
+                (box_filter &&
+                 box_filter->point_outside(current->barycenter())))
+              continue;
 
-        if (cell->is_locally_owned() == false ||
-            (box_filter && box_filter->point_outside(cell->barycenter())))
-          return 0;
+            const auto particle_id =
+              particle_ids[current->global_active_cell_index()];
 
-        const auto particle_id = particle_ids[cell->global_active_cell_index()];
+            if (particle_id != invalid_particle_id)
+              continue; // cell has been visited
 
-        if (particle_id != invalid_particle_id)
-          return 0; // cell has been visited
+            values.reinit(current->get_fe().n_dofs_per_cell());
 
-        Vector<double> values(cell->get_fe().n_dofs_per_cell());
+            bool has_grain = false;
+            for (unsigned int b = 0; b < solution.n_blocks() && !has_grain; ++b)
+              {
+                current->get_dof_values(solution.block(b), values);
 
-        for (unsigned int b = 0; b < solution.n_blocks(); ++b)
-          {
-            cell->get_dof_values(solution.block(b), values);
+                has_grain = values.linfty_norm() >= threshold_upper;
+              }
 
-            if (values.linfty_norm() >= threshold_upper)
-              return 0;
-          }
+            if (has_grain)
+              continue;
 
-        particle_ids[cell->global_active_cell_index()] = id;
+            particle_ids[current->global_active_cell_index()] = id;
 
-        unsigned int counter = 1;
+            ++counter;
 
-        for (const auto face : cell->face_indices())
-          if (cell->at_boundary(face) == false)
-            counter += run_flooding<dim>(cell->neighbor(face),
-                                         solution,
-                                         particle_ids,
-                                         id,
-                                         threshold_upper,
-                                         invalid_particle_id,
-                                         box_filter);
+            for (const auto face : current->face_indices())
+              if (current->at_boundary(face) == false)
+                {
+                  // If the neighbor is refined, then visit only those of its
+                  // children which share the face with the current cell
+                  if (current->neighbor(face)->has_children())
+                    for (unsigned int subface = 0;
+                         subface <
+                         GeometryInfo<dim>::n_subfaces(
+                           dealii::internal::SubfaceCase<dim>::case_isotropic);
+                         ++subface)
+                      cells_to_visit.push_back(
+                        current->neighbor_child_on_subface(face, subface));
+                  else
+                    cells_to_visit.push_back(current->neighbor(face));
+                }
+          }
 
         return counter;
       }
-- 
2.43.0

