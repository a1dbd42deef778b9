From 25968ff947dc509394e315a3df849492f6439c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:11 +0000
Subject: [PATCH 01/36] fix: measure cylindrical receiver angles from the
 receiver normal

The angles of cylinder intersections are computed in the local cylinder frame,
where the receiver normal always points along the local y-axis, but the azimuth
of the normal in the global frame was subtracted and the result was never
wrapped. Only receivers facing exactly north with an opening angle of at most
180 degrees were handled correctly.
---
 artist/raytracing/geometry.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/artist/raytracing/geometry.py b/artist/raytracing/geometry.py
index 20c7b5a..4cad8b5 100644
--- a/artist/raytracing/geometry.py
+++ b/artist/raytracing/geometry.py
@@ -395,13 +395,12 @@ def line_cylinder_intersections(
     # z-values range from negative half cylinder height to positive half the cylinder height, therefore we add half the cylinder height
     # to all z-values.
     z = z + heights.view(-1, 1, 1) / 2
-    # Initially angles are defined 0° towards positive east axis, we want to define 0° as where the normal vector points towards.
-    angles = torch.atan2(y, x) - (
-        torch.atan2(
-            cylinder_normals[:, indices.cylinder_local_y].view(-1, 1, 1),
-            cylinder_normals[:, indices.cylinder_local_x].view(-1, 1, 1),
-        )
-        - (opening_angles.view(-1, 1, 1) / 2)
+    # In the local cylinder frame, angles are counted from the local x-axis, while the cylinder normal always coincides with
+    # the local y-axis (90°), no matter where it points to in the global frame. The bitmap angles start at the edge of the
+    # opening, i.e., half the opening angle before the normal, and are wrapped to [0°, 360°).
+    angles = torch.remainder(
+        torch.atan2(y, x) - (torch.pi / 2 - opening_angles.view(-1, 1, 1) / 2),
+        2 * torch.pi,
     )
 
     intersections_on_target = (
-- 
2.43.0


From 9efdee255bc7f8dbcdd3d9bd42b465fd8c77f68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:44 +0000
Subject: [PATCH 02/36] fix: rays starting behind a flat receiver are no longer
 counted as hits

A ray that starts behind the receiver plane and travels away from it has a
negative intersection distance. Its backwards extension must not deposit flux.
---
 artist/raytracing/geometry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/artist/raytracing/geometry.py b/artist/raytracing/geometry.py
index 4cad8b5..3d5ae26 100644
--- a/artist/raytracing/geometry.py
+++ b/artist/raytracing/geometry.py
@@ -174,13 +174,15 @@ def line_plane_intersections(
     )
 
     # Filter out rays that are out of bounds of the target plane dimensions. Previously an infinite plane was considered.
-    # Also filter out rays that hit the backside of the target or rays that are parallel to the target.
+    # Also filter out rays that hit the backside of the target, rays that are parallel to the target or rays that start behind
+    # the target and travel away from it.
     valid_mask = (
         (0 <= bitmap_intersections_e)
         & (bitmap_intersections_e <= bitmap_resolution[indices.unbatched_bitmap_e] - 1)
         & (0 <= bitmap_intersections_u)
         & (bitmap_intersections_u <= bitmap_resolution[indices.unbatched_bitmap_u] - 1)
         & front_facing_mask
+        & (intersection_distances >= 0)
     )
 
     bitmap_intersections_e = bitmap_intersections_e * valid_mask
-- 
2.43.0


From b992959f29110ef4ddaadb911741f43e10e6443b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:51 +0000
Subject: [PATCH 03/36] fix: trace all samples when heliostats are activated
 unequally often

The sampler assumed equally many samples per active heliostat. For other
selections the remaining samples were never traced and their flux was
uninitialized memory, also on a single rank.
---
 artist/raytracing/heliostat_ray_tracer.py |  3 +++
 artist/raytracing/sampling.py             | 17 +++++++++++------
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/artist/raytracing/heliostat_ray_tracer.py b/artist/raytracing/heliostat_ray_tracer.py
index 273eb55..58234f1 100644
--- a/artist/raytracing/heliostat_ray_tracer.py
+++ b/artist/raytracing/heliostat_ray_tracer.py
@@ -145,6 +145,9 @@ class HeliostatRayTracer:
             ).sum(),
             world_size=self.world_size,
             rank=self.rank,
+            samples_per_heliostat=self.heliostat_group.active_heliostats_mask[
+                self.heliostat_group.active_heliostats_mask > 0
+            ].tolist(),
         )
         # Create dataloader.
         self.distortions_loader = DataLoader(
diff --git a/artist/raytracing/sampling.py b/artist/raytracing/sampling.py
index c165ef3..3a696e4 100644
--- a/artist/raytracing/sampling.py
+++ b/artist/raytracing/sampling.py
@@ -110,6 +110,7 @@ class RestrictedDistributedSampler(Sampler):
         number_of_active_heliostats: int,
         world_size: int = 1,
         rank: int = 0,
+        samples_per_heliostat: list[int] | None = None,
     ) -> None:
         """
         Set up a custom distributed sampler to assign data to each rank or leave them idle.
@@ -124,22 +125,26 @@ class RestrictedDistributedSampler(Sampler):
             World size or total number of processes (default is 1).
         rank : int
             Rank of the current process (default is 0).
+        samples_per_heliostat : list[int] | None
+            Number of samples of each active heliostat (default is None, i.e., all heliostats have equally many samples).
         """
         super().__init__()
         number_of_active_ranks = min(number_of_active_heliostats, world_size)
         self.rank_indices = []
 
         if rank < number_of_active_ranks:
-            number_of_samples_per_heliostat = (
-                number_of_samples // number_of_active_heliostats
-            )
+            if samples_per_heliostat is None:
+                samples_per_heliostat = [
+                    number_of_samples // number_of_active_heliostats
+                ] * number_of_active_heliostats
             indices: list[int] = []
 
-            for index in range(number_of_active_heliostats):
+            start = 0
+            for index, number_of_heliostat_samples in enumerate(samples_per_heliostat):
+                end = start + number_of_heliostat_samples
                 if index % number_of_active_ranks == rank:
-                    start = index * number_of_samples_per_heliostat
-                    end = start + number_of_samples_per_heliostat
                     indices.extend(range(start, end))
+                start = end
 
             self.rank_indices = indices
         else:
-- 
2.43.0


From 069c0c7faa0b7fdb585cf998ae5864932e247fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:51 +0000
Subject: [PATCH 04/36] fix: exclude a heliostat from blocking itself in every
 heliostat group

The blocking primitives of all groups are concatenated, but rays were mapped to
primitives by their index within the own group. For all groups but the first,
rays skipped the primitive of a foreign heliostat instead of their own.
---
 artist/raytracing/heliostat_ray_tracer.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/artist/raytracing/heliostat_ray_tracer.py b/artist/raytracing/heliostat_ray_tracer.py
index 58234f1..39759e1 100644
--- a/artist/raytracing/heliostat_ray_tracer.py
+++ b/artist/raytracing/heliostat_ray_tracer.py
@@ -315,7 +315,17 @@ class HeliostatRayTracer:
         on_target_factor = torch.empty(active_heliostats_mask.sum(), device=device)
         blocking_factor = torch.empty(active_heliostats_mask.sum(), device=device)
 
-        global_active_indices = torch.nonzero(active_heliostats_mask, as_tuple=True)[0]
+        # The blocking primitives of all heliostat groups are concatenated, therefore the heliostat indices of this group
+        # need to be shifted by the number of heliostats in the preceding groups.
+        number_of_preceding_heliostats = 0
+        for group in self.scenario.heliostat_field.heliostat_groups:
+            if group is self.heliostat_group:
+                break
+            number_of_preceding_heliostats += group.number_of_heliostats
+        global_active_indices = (
+            torch.nonzero(active_heliostats_mask, as_tuple=True)[0]
+            + number_of_preceding_heliostats
+        )
         for batch_index, (batch_u, batch_e) in enumerate(self.distortions_loader):
             sampler_indices = list(self.distortions_sampler)
             batch_mask_indices = sampler_indices[
-- 
2.43.0


From bc4dc49b65ac1020acf7c188eb85d25da5db73b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:50 +0000
Subject: [PATCH 05/36] fix: find the correct split positions when building the
 LBVH

The step size of the split search was rounded down instead of up, so that some
split positions could not be reached. The resulting trees lost or duplicated
blocking primitives for seven or more primitives.
---
 artist/raytracing/blocking.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/artist/raytracing/blocking.py b/artist/raytracing/blocking.py
index aee2a39..651e9a1 100644
--- a/artist/raytracing/blocking.py
+++ b/artist/raytracing/blocking.py
@@ -637,8 +637,10 @@ def build_linear_bounding_volume_hierarchies(
     )
     split = torch.zeros(number_of_blocking_primitives, dtype=torch.int32, device=device)
 
-    t = (l_ + 1) // 2
-    while t.max() >= 1:
+    # The step sizes are halved and rounded up (l/2, l/4, ..., 1), otherwise not all split positions can be reached.
+    t = l_
+    while True:
+        t = (t + 1) // 2
         candidates_lcp = longest_common_prefix(
             codes=sorted_codes,
             i=blocker_ids,
@@ -647,7 +649,8 @@ def build_linear_bounding_volume_hierarchies(
         )
         mask = candidates_lcp > delta_node
         split = torch.where(mask, split + t, split)
-        t = t // 2
+        if t.max() <= 1:
+            break
 
     gamma = (
         blocker_ids
-- 
2.43.0


From 8d279f3271c36640f5bb3e6152343f563bd60206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:13 +0000
Subject: [PATCH 06/36] fix: build a valid LBVH for blocking primitives with
 identical Morton codes

Three or more primitives with identical Morton codes resulted in cyclic trees,
i.e., the ray tracer never returned. As described by Karras, identical codes are
now told apart by their position in the sorted array.
---
 artist/raytracing/blocking.py | 36 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/artist/raytracing/blocking.py b/artist/raytracing/blocking.py
index 651e9a1..878b4fe 100644
--- a/artist/raytracing/blocking.py
+++ b/artist/raytracing/blocking.py
@@ -477,7 +477,7 @@ def longest_common_prefix(
     Returns
     -------
     torch.Tensor
-        The longest common prefixes in the range from 0 to ``total_bits``.
+        The longest common prefixes, exceeding ``total_bits`` for identical Morton codes.
         Shape is ``[number_of_blocking_planes]``.
     """
     device = get_device(device=device)
@@ -488,24 +488,22 @@ def longest_common_prefix(
         differing_bits = torch.zeros_like(i, device=device)
         differing_bits[valid] = codes[i[valid]] ^ codes[j[valid]]
 
-        nonzero_mask = differing_bits != 0
-        msb = torch.full_like(i, -1, device=device)
-        if nonzero_mask.any():
-            leading_zeros = torch.zeros_like(
-                differing_bits[nonzero_mask], dtype=torch.int32, device=device
-            )
-            for shift in [16, 8, 4, 2, 1]:
-                mask = differing_bits[nonzero_mask] >> (32 - shift) == 0
-                leading_zeros = leading_zeros + shift * mask.to(torch.int32)
-                differing_bits[nonzero_mask] = torch.where(
-                    mask,
-                    differing_bits[nonzero_mask] << shift,
-                    differing_bits[nonzero_mask],
-                )
-
-            msb[nonzero_mask] = 31 - leading_zeros
-
-        lcp[valid] = torch.where(differing_bits[valid] == 0, 30, (30 - 1) - msb[valid])
+        # Primitives with identical Morton codes are distinguished by their position in the sorted array, as if the
+        # position was appended to the code. Otherwise, the tree would not be well-defined.
+        identical_codes = valid & (differing_bits == 0)
+        differing_bits[identical_codes] = (i ^ j.to(i.dtype))[identical_codes]
+
+        leading_zeros = torch.zeros_like(i, device=device)
+        for shift in [16, 8, 4, 2, 1]:
+            mask = differing_bits >> (32 - shift) == 0
+            leading_zeros = leading_zeros + shift * mask.to(torch.int32)
+            differing_bits = torch.where(mask, differing_bits << shift, differing_bits)
+
+        # Morton codes only have 30 bits, the two leading bits are always zero.
+        prefix_lengths = torch.where(
+            identical_codes, 30 + leading_zeros, leading_zeros - 2
+        )
+        lcp[valid] = prefix_lengths[valid]
 
     return lcp
 
-- 
2.43.0


From 3d191f980d2f0e8fc5895b9cff6ef99c0d27c002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:38 +0000
Subject: [PATCH 07/36] fix: only heliostats in front of the receiver block
 rays

The filtered blocking primitives are those hit by any ray of a batch before the
receiver. Without the distance to the receiver, they also blocked rays of other
heliostats that meet them only behind the receiver, depending on the batch.
---
 artist/raytracing/blocking.py             | 16 ++++++++++++++++
 artist/raytracing/heliostat_ray_tracer.py |  1 +
 2 files changed, 17 insertions(+)

diff --git a/artist/raytracing/blocking.py b/artist/raytracing/blocking.py
index 878b4fe..ea36e2b 100644
--- a/artist/raytracing/blocking.py
+++ b/artist/raytracing/blocking.py
@@ -219,6 +219,7 @@ def soft_ray_blocking_mask(
     softness: float = 1000.0,
     alpha: float = 100.0,
     ray_origin_offset: float = 0.05,
+    intersection_distances_target: torch.Tensor | None = None,
 ) -> torch.Tensor:
     r"""
     Compute a mask indicating which rays are blocked, using a soft differentiable approach.
@@ -278,6 +279,10 @@ def soft_ray_blocking_mask(
         Shift the ray origins a slight distance away from the heliostat planes to avoid self intersections
         (default is 0.05). The distance is measured in meters, so the default offset pushes the ray origins
         5 cm along the ray direction.
+    intersection_distances_target : torch.Tensor | None
+        The distances from the ray origins to the intersections with the target areas, 0 for rays missing the target areas
+        (default is None). If provided, only blocking primitives in front of the target areas block.
+        Shape is ``[number_of_heliostats, number_of_rays, number_of_combined_surface_points_all_facets]``.
 
     Returns
     -------
@@ -308,6 +313,17 @@ def soft_ray_blocking_mask(
     blocking_planes_in_front_of_heliostats = torch.sigmoid(
         softness * (distances_to_blocking_planes - ray_origin_offset)
     )
+    if intersection_distances_target is not None:
+        blocking_planes_in_front_of_heliostats = (
+            blocking_planes_in_front_of_heliostats
+            * torch.sigmoid(
+                softness
+                * (
+                    intersection_distances_target[..., None]
+                    - distances_to_blocking_planes
+                )
+            )
+        )
 
     intersection_points = (
         ray_origins + distances_to_blocking_planes[..., None] * ray_directions
diff --git a/artist/raytracing/heliostat_ray_tracer.py b/artist/raytracing/heliostat_ray_tracer.py
index 39759e1..d222a53 100644
--- a/artist/raytracing/heliostat_ray_tracer.py
+++ b/artist/raytracing/heliostat_ray_tracer.py
@@ -490,6 +490,7 @@ class HeliostatRayTracer:
                         ],
                         epsilon=1e-12,
                         softness=1000.0,
+                        intersection_distances_target=intersection_distances_target,
                     )
 
             intensities = (
-- 
2.43.0


From 0529be1453ffca029ff0549ff781a5c731b79ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:01 +0000
Subject: [PATCH 08/36] fix: keep actuator parameters after activating no
 heliostat

Whether there are optimizable actuator parameters was decided from the previous
selection, so after an empty selection they were lost for all later activations.
---
 artist/field/heliostat_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artist/field/heliostat_group.py b/artist/field/heliostat_group.py
index fb078ff..d2b7e25 100644
--- a/artist/field/heliostat_group.py
+++ b/artist/field/heliostat_group.py
@@ -303,7 +303,7 @@ class HeliostatGroup:
                 active_heliostats_mask, dim=0
             )
         )
-        if self.kinematics.actuators.active_optimizable_parameters.numel() > 0:
+        if self.kinematics.actuators.optimizable_parameters.numel() > 0:
             self.kinematics.actuators.active_optimizable_parameters = (
                 self.kinematics.actuators.optimizable_parameters.repeat_interleave(
                     active_heliostats_mask, dim=0
-- 
2.43.0


From 15eea4a59b0872d477b1c14a7fb0f61ff697e112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:19 +0000
Subject: [PATCH 09/36] fix: evaluate NURBS surfaces at the parameter value 1

---
 artist/nurbs/surfaces.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/artist/nurbs/surfaces.py b/artist/nurbs/surfaces.py
index f238c88..d05a80e 100644
--- a/artist/nurbs/surfaces.py
+++ b/artist/nurbs/surfaces.py
@@ -198,11 +198,12 @@ class NURBSSurfaces(torch.nn.Module):
         if self.uniform:
             unique_knots = torch.unique(knot_vectors, dim=indices.nurbs_knots_batched)
 
+            # The last span is closed, i.e., it also contains the evaluation point 1.
+            number_of_spans = unique_knots.shape[indices.nurbs_knots_batched] - 1
             spans = (
-                torch.floor(
-                    evaluation_points
-                    * (unique_knots.shape[indices.nurbs_knots_batched] - 1)
-                ).long()
+                torch.floor(evaluation_points * number_of_spans)
+                .long()
+                .clamp(max=number_of_spans - 1)
                 + degree
             )
 
-- 
2.43.0


From 688b8da0ef8cdbd8161d1def01018b2ae6a30e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:19 +0000
Subject: [PATCH 10/36] fix: search general NURBS knot spans for several
 surfaces and facets

---
 artist/nurbs/surfaces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artist/nurbs/surfaces.py b/artist/nurbs/surfaces.py
index d05a80e..68bb270 100644
--- a/artist/nurbs/surfaces.py
+++ b/artist/nurbs/surfaces.py
@@ -234,7 +234,7 @@ class NURBSSurfaces(torch.nn.Module):
             )
             is_last_knot = torch.isclose(
                 evaluation_points,
-                knot_vectors[:, :, number_of_knots],
+                knot_vectors[:, :, number_of_knots].unsqueeze(indices.nurbs_spans),
                 atol=1e-5,
                 rtol=1e-5,
             )
-- 
2.43.0


From 4b842212494f958e4445984644f27c4baa91bf52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:19 +0000
Subject: [PATCH 11/36] fix: keep fitted surfaces when rebuilding surfaces from
 control points

---
 artist/field/heliostat_field.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/artist/field/heliostat_field.py b/artist/field/heliostat_field.py
index 321a054..d7c1054 100644
--- a/artist/field/heliostat_field.py
+++ b/artist/field/heliostat_field.py
@@ -10,6 +10,7 @@ from typing_extensions import Self
 
 from artist.field.heliostat_group import HeliostatGroup
 from artist.field.surface import Surface
+from artist.geometry.transforms import perform_canting
 from artist.io import h5_scenario_parser
 from artist.nurbs.surfaces import NURBSSurfaces
 from artist.nurbs.utils import (
@@ -306,6 +307,24 @@ class HeliostatField:
                     canting=canting,
                     device=device,
                 )
+            elif torch.any(control_points[..., indices.u] != 0):
+                # The control points of fitted surfaces already include the canting and the translation of the facets.
+                # In the heliostat groups all control points are given in the local facet coordinate systems.
+                control_points_relative_to_facets = torch.nn.functional.pad(
+                    control_points
+                    - facet_translation_vectors[
+                        :, None, None, : indices.slice_fourth_dimension
+                    ],
+                    (0, 1),
+                )
+                control_points = perform_canting(
+                    canting_angles=canting.unsqueeze(indices.heliostat_dimension),
+                    data=control_points_relative_to_facets.reshape(
+                        1, number_of_facets, -1, 4
+                    ),
+                    inverse=True,
+                    device=device,
+                )[..., : indices.slice_fourth_dimension].reshape(control_points.shape)
 
             heliostat_group_key = f"{kinematics_type}_{actuator_type}"
 
-- 
2.43.0


From aba62d19c6465e6f3907c117b3cabc31fa92caf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:04 +0000
Subject: [PATCH 12/36] fix: rebuild surfaces with the surface sampling they
 were loaded with

---
 artist/field/heliostat_field.py | 43 +++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/artist/field/heliostat_field.py b/artist/field/heliostat_field.py
index d7c1054..173eef8 100644
--- a/artist/field/heliostat_field.py
+++ b/artist/field/heliostat_field.py
@@ -42,6 +42,9 @@ class HeliostatField:
     number_of_heliostats_per_group : torch.Tensor
         The number of heliostats per group.
         Shape is ``[number_of_heliostat_groups]``.
+    number_of_surface_points_per_facet : torch.Tensor | None
+        The number of sampling points along each direction of each 2D facet.
+        Shape is ``[2]``.
 
     Methods
     -------
@@ -55,6 +58,7 @@ class HeliostatField:
         self,
         heliostat_groups: Sequence[HeliostatGroup],
         device: torch.device | None = None,
+        number_of_surface_points_per_facet: torch.Tensor | None = None,
     ) -> None:
         """
         Initialize the heliostat field with heliostat groups.
@@ -67,8 +71,13 @@ class HeliostatField:
             The device on which to perform computations or load tensors and models (default is None).
             If None, ``ARTIST`` will automatically select the most appropriate
             device (CUDA or CPU) based on availability and OS.
+        number_of_surface_points_per_facet : torch.Tensor | None
+            The number of sampling points along each direction of each 2D facet (default is None).
+            If None, the number of sampling points is assumed to be the same along both directions.
+            Shape is ``[2]``.
         """
         self.heliostat_groups = heliostat_groups
+        self.number_of_surface_points_per_facet = number_of_surface_points_per_facet
         self.number_of_heliostat_groups = len(self.heliostat_groups)
         self.number_of_heliostats_per_group = torch.tensor(
             [
@@ -451,7 +460,11 @@ class HeliostatField:
                     f"Added a heliostat group with kinematics type: {grouped_field_data[heliostat_group_name][constants.heliostat_group_type][indices.kinematics_type_index]}, and actuator type: {grouped_field_data[heliostat_group_name][constants.heliostat_group_type][indices.actuator_type_index]}, to the heliostat field."
                 )
 
-        return cls(heliostat_groups=heliostat_groups, device=device)
+        return cls(
+            heliostat_groups=heliostat_groups,
+            device=device,
+            number_of_surface_points_per_facet=number_of_surface_points_per_facet,
+        )
 
     def update_surfaces(
         self,
@@ -470,21 +483,25 @@ class HeliostatField:
         device = get_device(device=device)
 
         for heliostat_group in self.heliostat_groups:
-            number_of_surface_points_per_facet = int(
-                math.sqrt(
-                    heliostat_group.surface_points.shape[1]
-                    / heliostat_group.number_of_facets_per_heliostat
+            number_of_evaluation_points = self.number_of_surface_points_per_facet
+            if (
+                number_of_evaluation_points is None
+                or int(number_of_evaluation_points.prod())
+                * heliostat_group.number_of_facets_per_heliostat
+                != heliostat_group.surface_points.shape[1]
+            ):
+                # The same number of surface points along both directions.
+                number_of_evaluation_points = torch.full(
+                    (2,),
+                    math.isqrt(
+                        heliostat_group.surface_points.shape[1]
+                        // heliostat_group.number_of_facets_per_heliostat
+                    ),
+                    device=device,
                 )
-            )
             evaluation_points = (
                 create_nurbs_evaluation_grid(
-                    number_of_evaluation_points=torch.tensor(
-                        [
-                            number_of_surface_points_per_facet,
-                            number_of_surface_points_per_facet,
-                        ],
-                        device=device,
-                    ),
+                    number_of_evaluation_points=number_of_evaluation_points,
                     device=device,
                 )
                 .unsqueeze(indices.heliostat_dimension)
-- 
2.43.0


From baa2e7e9567d149202edfc100f5693a47563d39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:49 +0000
Subject: [PATCH 13/36] fix: rotate opposite vectors onto each other

---
 artist/geometry/rotations.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/artist/geometry/rotations.py b/artist/geometry/rotations.py
index a88b3a2..c417766 100644
--- a/artist/geometry/rotations.py
+++ b/artist/geometry/rotations.py
@@ -52,6 +52,14 @@ def decompose_rotations(
     # Compute the cross product (rotation axis).
     r = torch.linalg.cross(initial_vector, target_vector)
 
+    # The cross product vanishes for opposite vectors, then any axis orthogonal to the initial vector can be used.
+    dot = (initial_vector * target_vector).sum(dim=-1, keepdim=True)
+    helper = torch.nn.functional.one_hot(
+        initial_vector.abs().argmin(dim=-1), num_classes=initial_vector.shape[-1]
+    ).to(initial_vector.dtype)
+    opposite = (torch.linalg.norm(r, dim=-1, keepdim=True) < 1e-6) & (dot < 0)
+    r = torch.where(opposite, torch.linalg.cross(initial_vector, helper), r)
+
     # Normalize the rotation axis.
     r_normalized = torch.nn.functional.normalize(r)
 
-- 
2.43.0


From 220edab603820376832609cface7b554fd0fb52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:13 +0000
Subject: [PATCH 14/36] fix: local coordinates across the 180th meridian

---
 artist/geometry/coordinates.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/artist/geometry/coordinates.py b/artist/geometry/coordinates.py
index dfa622b..c7f3cff 100644
--- a/artist/geometry/coordinates.py
+++ b/artist/geometry/coordinates.py
@@ -378,6 +378,12 @@ def convert_wgs84_coordinates_to_local_enu(
     # Calculate delta latitude and delta longitude in radians.
     dlat_rad = latitude_reference_point - latitudes
     dlon_rad = longitude_reference_point - longitudes
+    # Use the short way around if the coordinates and the reference point lie on both sides of the 180th meridian.
+    dlon_rad = torch.where(
+        dlon_rad.abs() > torch.pi,
+        dlon_rad - 2 * torch.pi * torch.sign(dlon_rad),
+        dlon_rad,
+    )
 
     # Calculate north and east offsets in meters.
     transformed_coordinates[:, indices.e] = -(dlon_rad * rn1 * torch.cos(latitudes))
-- 
2.43.0


From 0f718f6f1abc7f2c66517ea1fac8e4e6c2d19bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:44 +0000
Subject: [PATCH 15/36] fix: reject joint angles that the actuators cannot
 reach

---
 artist/field/kinematics_rigid_body.py | 59 +++++++++++++++++++++++++++
 1 file changed, 59 insertions(+)

diff --git a/artist/field/kinematics_rigid_body.py b/artist/field/kinematics_rigid_body.py
index e14361d..c4756dd 100644
--- a/artist/field/kinematics_rigid_body.py
+++ b/artist/field/kinematics_rigid_body.py
@@ -1,4 +1,5 @@
 import logging
+import math
 
 import torch
 
@@ -486,6 +487,22 @@ class RigidBody(Kinematics):
         valid_1 = (motor_positions_1 >= min_pos) & (motor_positions_1 <= max_pos)
         valid_2 = (motor_positions_2 >= min_pos) & (motor_positions_2 <= max_pos)
 
+        # Joint angles beyond the range of an actuator are mapped to motor positions that produce other angles.
+        valid_1 = valid_1 & self._joint_angles_reproduced(
+            motor_positions=motor_positions_1,
+            joint_angles=torch.stack(
+                [first_joint_angle_1, second_joint_angle_1], dim=-1
+            ),
+            device=device,
+        )
+        valid_2 = valid_2 & self._joint_angles_reproduced(
+            motor_positions=motor_positions_2,
+            joint_angles=torch.stack(
+                [first_joint_angle_2, second_joint_angle_2], dim=-1
+            ),
+            device=device,
+        )
+
         solution_1_valid = valid_1.all(dim=1)
         solution_2_valid = valid_2.all(dim=1)
 
@@ -507,6 +524,48 @@ class RigidBody(Kinematics):
 
         return motor_positions
 
+    def _joint_angles_reproduced(
+        self,
+        motor_positions: torch.Tensor,
+        joint_angles: torch.Tensor,
+        tolerance: float = 0.01,
+        device: torch.device | None = None,
+    ) -> torch.Tensor:
+        """
+        Check which motor positions produce the joint angles that they were computed from.
+
+        Parameters
+        ----------
+        motor_positions : torch.Tensor
+            The motor positions.
+            Shape is ``[number_of_active_heliostats, 2]``.
+        joint_angles : torch.Tensor
+            The joint angles.
+            Shape is ``[number_of_active_heliostats, 2]``.
+        tolerance : float
+            The tolerated difference of the angles in radians (default is 0.01).
+        device : torch.device | None
+            The device on which to perform computations or load tensors and models (default is None).
+            If None, ``ARTIST`` will automatically select the most appropriate
+            device (CUDA or CPU) based on availability and OS.
+
+        Returns
+        -------
+        torch.Tensor
+            A boolean mask that is true where the joint angles are reproduced.
+            Shape is ``[number_of_active_heliostats, 2]``.
+        """
+        device = get_device(device=device)
+
+        difference = (
+            self.actuators.motor_positions_to_angles(
+                motor_positions=motor_positions, device=device
+            )
+            - joint_angles
+        )
+        # Angles that differ by full turns are the same.
+        return torch.cos(difference) >= math.cos(tolerance)
+
     def motor_positions_to_orientations(
         self, motor_positions: torch.Tensor, device: torch.device | None = None
     ) -> torch.Tensor:
-- 
2.43.0


From f7d26a65fa1914bbb9b6065b33c9c947afb52a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:54 +0000
Subject: [PATCH 16/36] fix: reject negative target area indices

---
 artist/scenario/scenario.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artist/scenario/scenario.py b/artist/scenario/scenario.py
index d493f60..6632f30 100644
--- a/artist/scenario/scenario.py
+++ b/artist/scenario/scenario.py
@@ -332,7 +332,7 @@ class Scenario:
                 raise ValueError(
                     "The specified single incident ray direction is invalid. Please provide a normalized 4D tensor with last element 0.0."
                 )
-            if single_target_area_index >= total_number_of_target_areas:
+            if not 0 <= single_target_area_index < total_number_of_target_areas:
                 raise ValueError(
                     f"The specified single target area index is invalid. Only {total_number_of_target_areas} target areas exist in this scenario."
                 )
-- 
2.43.0


From 82d0cdd96ffd135270110dc2a605d40bc7a4959d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:29 +0000
Subject: [PATCH 17/36] fix: load scenarios without planar or without
 cylindrical target areas

---
 artist/field/tower_target_areas_cylindrical.py | 10 +++++-----
 artist/field/tower_target_areas_planar.py      | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/artist/field/tower_target_areas_cylindrical.py b/artist/field/tower_target_areas_cylindrical.py
index d7694ac..e925199 100644
--- a/artist/field/tower_target_areas_cylindrical.py
+++ b/artist/field/tower_target_areas_cylindrical.py
@@ -132,7 +132,9 @@ class TowerTargetAreasCylindrical(TowerTargetAreas):
         if rank == 0:
             log.info("Loading the cylindrical tower target areas from an HDF5 file.")
 
-        number_of_target_areas = len(config_file[constants.target_area_cylindrical_key])
+        # Scenarios without cylindrical target areas do not contain the corresponding HDF5 group.
+        target_areas_config = config_file.get(constants.target_area_cylindrical_key, {})
+        number_of_target_areas = len(target_areas_config)
 
         names = []
         radii = torch.zeros(number_of_target_areas, device=device)
@@ -143,11 +145,9 @@ class TowerTargetAreasCylindrical(TowerTargetAreas):
         opening_angles = torch.zeros(number_of_target_areas, device=device)
 
         for index, target_area_name in enumerate(
-            sorted(config_file[constants.target_area_cylindrical_key].keys())
+            sorted(target_areas_config.keys())
         ):
-            single_target_area_config = config_file[
-                constants.target_area_cylindrical_key
-            ][target_area_name]
+            single_target_area_config = target_areas_config[target_area_name]
             names.append(target_area_name)
             radii[index] = torch.tensor(
                 single_target_area_config[constants.target_area_cylinder_radius][()],
diff --git a/artist/field/tower_target_areas_planar.py b/artist/field/tower_target_areas_planar.py
index ea50fa1..14aecb2 100644
--- a/artist/field/tower_target_areas_planar.py
+++ b/artist/field/tower_target_areas_planar.py
@@ -104,7 +104,9 @@ class TowerTargetAreasPlanar(TowerTargetAreas):
         if rank == 0:
             log.info("Loading the planar tower target areas from an HDF5 file.")
 
-        number_of_target_areas = len(config_file[constants.target_area_planar_key])
+        # Scenarios without planar target areas do not contain the corresponding HDF5 group.
+        target_areas_config = config_file.get(constants.target_area_planar_key, {})
+        number_of_target_areas = len(target_areas_config)
 
         names = []
         centers = torch.zeros((number_of_target_areas, 4), device=device)
@@ -112,11 +114,9 @@ class TowerTargetAreasPlanar(TowerTargetAreas):
         dimensions = torch.zeros((number_of_target_areas, 2), device=device)
 
         for index, target_area_name in enumerate(
-            sorted(config_file[constants.target_area_planar_key].keys())
+            sorted(target_areas_config.keys())
         ):
-            single_target_area_config = config_file[constants.target_area_planar_key][
-                target_area_name
-            ]
+            single_target_area_config = target_areas_config[target_area_name]
             names.append(target_area_name)
             centers[index] = torch.tensor(
                 single_target_area_config[constants.target_area_position_center][()],
-- 
2.43.0


From fbb8c68c70babe12f709d9500978676055b9102d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:12 +0000
Subject: [PATCH 18/36] fix: load planar target area sizes stored with one
 element

---
 artist/field/tower_target_areas_planar.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/artist/field/tower_target_areas_planar.py b/artist/field/tower_target_areas_planar.py
index 14aecb2..bfb55e2 100644
--- a/artist/field/tower_target_areas_planar.py
+++ b/artist/field/tower_target_areas_planar.py
@@ -128,11 +128,15 @@ class TowerTargetAreasPlanar(TowerTargetAreas):
                 dtype=torch.float,
                 device=device,
             )
-            dimensions[index, indices.target_area_plane_e] = float(
-                single_target_area_config[constants.target_area_plane_e][()]
+            dimensions[index, indices.target_area_plane_e] = torch.tensor(
+                single_target_area_config[constants.target_area_plane_e][()],
+                dtype=torch.float,
+                device=device,
             )
-            dimensions[index, indices.target_area_plane_u] = float(
-                single_target_area_config[constants.target_area_plane_u][()]
+            dimensions[index, indices.target_area_plane_u] = torch.tensor(
+                single_target_area_config[constants.target_area_plane_u][()],
+                dtype=torch.float,
+                device=device,
             )
 
         return cls(
-- 
2.43.0


From fa3a4972de2766a62f2242b07581779ce732d02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:49 +0000
Subject: [PATCH 19/36] fix: load own actuators of heliostats with the
 kinematics prototype

---
 artist/field/heliostat_field.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/artist/field/heliostat_field.py b/artist/field/heliostat_field.py
index 173eef8..e676422 100644
--- a/artist/field/heliostat_field.py
+++ b/artist/field/heliostat_field.py
@@ -213,6 +213,7 @@ class HeliostatField:
                 rotation_deviations = prototype_kinematics[
                     constants.rotation_deviations
                 ]
+                number_of_actuators = constants.rigid_body_number_of_actuators
 
             if constants.heliostat_actuator_key in single_heliostat_config.keys():
                 actuator_keys = list(
-- 
2.43.0


From 23c1389667d26f2458dc1fc6b5d29ac09f7e722a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:55 +0000
Subject: [PATCH 20/36] fix: keep the NURBS degrees of each heliostat group
 when loading a field

---
 artist/field/heliostat_field.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/artist/field/heliostat_field.py b/artist/field/heliostat_field.py
index e676422..cf5dc44 100644
--- a/artist/field/heliostat_field.py
+++ b/artist/field/heliostat_field.py
@@ -148,6 +148,7 @@ class HeliostatField:
         grouped_field_data: defaultdict[
             str, defaultdict[str, list[str | torch.Tensor]]
         ] = defaultdict(lambda: defaultdict(list))
+        nurbs_degrees_per_group: dict[str, torch.Tensor] = {}
 
         for heliostat_name in config_file[constants.heliostat_key].keys():
             single_heliostat_config = config_file[constants.heliostat_key][
@@ -338,6 +339,7 @@ class HeliostatField:
 
             heliostat_group_key = f"{kinematics_type}_{actuator_type}"
 
+            nurbs_degrees_per_group[heliostat_group_key] = degrees
             grouped_field_data[heliostat_group_key][constants.names].append(
                 heliostat_name
             )
@@ -437,7 +439,7 @@ class HeliostatField:
                     nurbs_control_points=grouped_field_data[heliostat_group_name][
                         constants.facet_control_points
                     ],
-                    nurbs_degrees=degrees,
+                    nurbs_degrees=nurbs_degrees_per_group[heliostat_group_name],
                     initial_orientations=grouped_field_data[heliostat_group_name][
                         constants.initial_orientations
                     ],
-- 
2.43.0


From 0a505cd484fd35458f9d687b71de8de0c407445e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:43 +0000
Subject: [PATCH 21/36] fix: select calibration measurements independently of
 the directory order

---
 artist/io/paint_scenario_parser.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/artist/io/paint_scenario_parser.py b/artist/io/paint_scenario_parser.py
index e89904c..fabefb6 100644
--- a/artist/io/paint_scenario_parser.py
+++ b/artist/io/paint_scenario_parser.py
@@ -1102,14 +1102,13 @@ def build_heliostat_data_mapping(
             log.warning(f"Calibration directory for {name} not found.")
             continue
 
-        property_files = list(
+        # The order in which the file system lists files is arbitrary, sort to make the selection reproducible.
+        property_files = sorted(
             calibration_dir.glob(f"*{paint_mappings.CALIBRATION_PROPERTIES_IDENTIFIER}")
         )
 
         if randomize:
             random.Random(seed).shuffle(property_files)
-        else:
-            property_files.sort()
 
         properties, images = [], []
 
-- 
2.43.0


From 9a5f4c31a1a82ea94cb0669e3fa0859cd29cd723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:02 +0000
Subject: [PATCH 22/36] fix: read cylindrical receivers with whole-numbered
 normal vectors

---
 artist/io/paint_scenario_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/artist/io/paint_scenario_parser.py b/artist/io/paint_scenario_parser.py
index fabefb6..a306ca1 100644
--- a/artist/io/paint_scenario_parser.py
+++ b/artist/io/paint_scenario_parser.py
@@ -181,7 +181,9 @@ def extract_paint_tower_measurements(
                 torch.tensor(tower_dict[target_area]["opening_angle"], device=device)
             )
             normal = torch.tensor(
-                tower_dict[target_area]["normal_vector"], device=device
+                tower_dict[target_area]["normal_vector"],
+                dtype=torch.float32,
+                device=device,
             )
             ortho_radius = torch.cross(
                 normal, torch.tensor([0.0, 0.0, 1.0], device=device), dim=-1
-- 
2.43.0


From 8f28924d34d4610ebe32edd6f654cdaa6d238b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:57 +0000
Subject: [PATCH 23/36] fix: extract mixed surfaces when all heliostats are
 ideal or all are fitted

---
 artist/io/paint_scenario_parser.py | 57 +++++++++++++++++-------------
 1 file changed, 32 insertions(+), 25 deletions(-)

diff --git a/artist/io/paint_scenario_parser.py b/artist/io/paint_scenario_parser.py
index a306ca1..43aab1d 100644
--- a/artist/io/paint_scenario_parser.py
+++ b/artist/io/paint_scenario_parser.py
@@ -979,34 +979,41 @@ def extract_paint_heliostats_mixed_surface(
         else:
             ideal_paths.append(path_tuple)
 
-    # Process ideal heliostats.
-    ideal_heliostats_config, prototype_config = _process_heliostats_from_paths(
-        paths=ideal_paths,
-        power_plant_position=power_plant_position,
-        number_of_nurbs_control_points=number_of_nurbs_control_points,
-        surface_config_generator=_ideal_surface_generator,
-        device=device,
-    )
+    combined_heliostat_list = []
+    prototype_config = None
 
-    # Process fitted heliostats.
-    fitted_heliostats_config, _ = _process_heliostats_from_paths(
-        paths=fitted_paths,
-        power_plant_position=power_plant_position,
-        number_of_nurbs_control_points=number_of_nurbs_control_points,
-        surface_config_generator=_fitted_surface_generator,
-        device=device,
-        nurbs_fit_optimizer=nurbs_fit_optimizer,
-        nurbs_fit_scheduler=nurbs_fit_scheduler,
-        deflectometry_step_size=deflectometry_step_size,
-        nurbs_fit_method=nurbs_fit_method,
-        nurbs_fit_tolerance=nurbs_fit_tolerance,
-        nurbs_fit_max_epoch=nurbs_fit_max_epoch,
-    )
+    # Process ideal heliostats.
+    if ideal_paths:
+        ideal_heliostats_config, prototype_config = _process_heliostats_from_paths(
+            paths=ideal_paths,
+            power_plant_position=power_plant_position,
+            number_of_nurbs_control_points=number_of_nurbs_control_points,
+            surface_config_generator=_ideal_surface_generator,
+            device=device,
+        )
+        combined_heliostat_list += ideal_heliostats_config.heliostat_list
+
+    # Process fitted heliostats, which only provide the prototype if there are no ideal heliostats.
+    if fitted_paths:
+        fitted_heliostats_config, fitted_prototype_config = (
+            _process_heliostats_from_paths(
+                paths=fitted_paths,
+                power_plant_position=power_plant_position,
+                number_of_nurbs_control_points=number_of_nurbs_control_points,
+                surface_config_generator=_fitted_surface_generator,
+                device=device,
+                nurbs_fit_optimizer=nurbs_fit_optimizer,
+                nurbs_fit_scheduler=nurbs_fit_scheduler,
+                deflectometry_step_size=deflectometry_step_size,
+                nurbs_fit_method=nurbs_fit_method,
+                nurbs_fit_tolerance=nurbs_fit_tolerance,
+                nurbs_fit_max_epoch=nurbs_fit_max_epoch,
+            )
+        )
+        combined_heliostat_list += fitted_heliostats_config.heliostat_list
+        prototype_config = prototype_config or fitted_prototype_config
 
     # Combine the lists.
-    combined_heliostat_list = (
-        ideal_heliostats_config.heliostat_list + fitted_heliostats_config.heliostat_list
-    )
     combined_heliostat_list_config = HeliostatListConfig(
         heliostat_list=combined_heliostat_list
     )
-- 
2.43.0


From 80a184ae44a993bb794b829759e28d5e70610d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:08 +0000
Subject: [PATCH 24/36] fix: return the ray tracing results of the samples of
 the current rank only

With several ranks per heliostat group every rank returned tensors for all
samples, with uninitialized values for the samples of the other ranks, while
all callers index the results with the sampler indices of the rank.
---
 artist/optim/surface_reconstructor.py     | 15 ++++++----
 artist/raytracing/heliostat_ray_tracer.py | 36 +++++++++++++----------
 2 files changed, 30 insertions(+), 21 deletions(-)

diff --git a/artist/optim/surface_reconstructor.py b/artist/optim/surface_reconstructor.py
index 75b1e2c..b9173c8 100644
--- a/artist/optim/surface_reconstructor.py
+++ b/artist/optim/surface_reconstructor.py
@@ -254,15 +254,17 @@ class SurfaceReconstructor:
             device=device,
         )
 
+        indices_for_local_rank = ray_tracer.get_sampler_indices()
+
         cropped_flux_distributions = bitmap.crop_flux_distributions_around_center(
             flux_distributions=flux_prediction,
             solar_tower=self.scenario.solar_tower,
-            target_area_indices=data_split.target_area_indices_test,
+            target_area_indices=data_split.target_area_indices_test[
+                indices_for_local_rank
+            ],
             device=device,
         )
 
-        indices_for_local_rank = ray_tracer.get_sampler_indices()
-
         loss_pixel_per_sample = self.validation_loss_pixel(
             prediction=cropped_flux_distributions,
             ground_truth=data_split.flux_measured_test[indices_for_local_rank],
@@ -574,15 +576,18 @@ class SurfaceReconstructor:
             device=device,
         )
 
+        sample_indices_for_local_rank = ray_tracer.get_sampler_indices()
+
         # Crop predictions around center before comparing to measurements.
         cropped_flux_predictions = bitmap.crop_flux_distributions_around_center(
             flux_distributions=flux_prediction_train,
             solar_tower=self.scenario.solar_tower,
-            target_area_indices=data_split.target_area_indices_train,
+            target_area_indices=data_split.target_area_indices_train[
+                sample_indices_for_local_rank
+            ],
             device=device,
         )
 
-        sample_indices_for_local_rank = ray_tracer.get_sampler_indices()
         local_indices = (
             sample_indices_for_local_rank[:: data_split.number_of_train_samples]
             // data_split.number_of_train_samples
diff --git a/artist/raytracing/heliostat_ray_tracer.py b/artist/raytracing/heliostat_ray_tracer.py
index d222a53..a406f69 100644
--- a/artist/raytracing/heliostat_ray_tracer.py
+++ b/artist/raytracing/heliostat_ray_tracer.py
@@ -217,6 +217,7 @@ class HeliostatRayTracer:
         """
         return torch.tensor(
             self.distortions_sampler.rank_indices,
+            dtype=torch.long,
             device=self.distortions_dataset.distortions_u.device,
         )
 
@@ -267,17 +268,17 @@ class HeliostatRayTracer:
         Returns
         -------
         torch.Tensor
-            The resulting bitmaps per heliostat.
-            Shape is ``[number_of_active_heliostats, bitmap_resolution_e, bitmap_resolution_u]``.
+            The resulting bitmaps per heliostat, in the order given by ``get_sampler_indices()``.
+            Shape is ``[number_of_samples_assigned_to_current_rank, bitmap_resolution_e, bitmap_resolution_u]``.
         torch.Tensor
             The fraction of rays hitting the target, neglecting blocking effects.
-            Shape is ``[number_of_active_heliostats]``.
+            Shape is ``[number_of_samples_assigned_to_current_rank]``.
         torch.Tensor
             The fraction of rays not being blocked.
-            Shape is ``[number_of_active_heliostats]``.
+            Shape is ``[number_of_samples_assigned_to_current_rank]``.
         torch.Tensor
             The fraction of rays actually hitting the target, taking into account blocking effects.
-            Shape is ``[number_of_active_heliostats]``.
+            Shape is ``[number_of_samples_assigned_to_current_rank]``.
         """
         device = get_device(device=device)
 
@@ -303,17 +304,19 @@ class HeliostatRayTracer:
                 device=device,
             )
 
+        # Only the samples assigned to the current rank are traced here.
+        number_of_local_samples = len(self.distortions_sampler.rank_indices)
         flux_distributions = torch.empty(
             (
-                int(active_heliostats_mask.sum()),
+                number_of_local_samples,
                 int(self.bitmap_resolution[indices.unbatched_bitmap_u]),
                 int(self.bitmap_resolution[indices.unbatched_bitmap_e]),
             ),
             device=device,
         )
-        intercept_factor = torch.empty(active_heliostats_mask.sum(), device=device)
-        on_target_factor = torch.empty(active_heliostats_mask.sum(), device=device)
-        blocking_factor = torch.empty(active_heliostats_mask.sum(), device=device)
+        intercept_factor = torch.empty(number_of_local_samples, device=device)
+        on_target_factor = torch.empty(number_of_local_samples, device=device)
+        blocking_factor = torch.empty(number_of_local_samples, device=device)
 
         # The blocking primitives of all heliostat groups are concatenated, therefore the heliostat indices of this group
         # need to be shifted by the number of heliostats in the preceding groups.
@@ -328,9 +331,10 @@ class HeliostatRayTracer:
         )
         for batch_index, (batch_u, batch_e) in enumerate(self.distortions_loader):
             sampler_indices = list(self.distortions_sampler)
-            batch_mask_indices = sampler_indices[
-                batch_index * self.batch_size : (batch_index + 1) * self.batch_size
-            ]
+            batch_slice = slice(
+                batch_index * self.batch_size, (batch_index + 1) * self.batch_size
+            )
+            batch_mask_indices = sampler_indices[batch_slice]
             active_heliostats_mask_batch = torch.zeros(
                 self.heliostat_group.number_of_active_heliostats,
                 dtype=torch.bool,
@@ -507,15 +511,15 @@ class HeliostatRayTracer:
                 device=device,
             )
 
-            flux_distributions[active_heliostats_mask_batch] = bitmaps
+            flux_distributions[batch_slice] = bitmaps
 
-            on_target_factor[active_heliostats_mask_batch] = (
+            on_target_factor[batch_slice] = (
                 angle_reduced_intensities > 0
             ).sum((1, 2)) / number_of_rays_per_heliostat
-            blocking_factor[active_heliostats_mask_batch] = (blocked < 1e-3).sum(
+            blocking_factor[batch_slice] = (blocked < 1e-3).sum(
                 (1, 2)
             ) / number_of_rays_per_heliostat
-            intercept_factor[active_heliostats_mask_batch] = (intensities > 0).sum(
+            intercept_factor[batch_slice] = (intensities > 0).sum(
                 (1, 2)
             ) / number_of_rays_per_heliostat
 
-- 
2.43.0


From 48157d4cf8db505774d84a4649967a250f677ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:05 +0000
Subject: [PATCH 25/36] fix: detect missing target area types by the missing
 HDF5 group only

Completes "fix: load scenarios without planar or without cylindrical target areas".
---
 artist/field/tower_target_areas_cylindrical.py | 5 ++++-
 artist/field/tower_target_areas_planar.py      | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/artist/field/tower_target_areas_cylindrical.py b/artist/field/tower_target_areas_cylindrical.py
index e925199..3ef1091 100644
--- a/artist/field/tower_target_areas_cylindrical.py
+++ b/artist/field/tower_target_areas_cylindrical.py
@@ -133,7 +133,10 @@ class TowerTargetAreasCylindrical(TowerTargetAreas):
             log.info("Loading the cylindrical tower target areas from an HDF5 file.")
 
         # Scenarios without cylindrical target areas do not contain the corresponding HDF5 group.
-        target_areas_config = config_file.get(constants.target_area_cylindrical_key, {})
+        try:
+            target_areas_config = config_file[constants.target_area_cylindrical_key]
+        except KeyError:
+            target_areas_config = {}
         number_of_target_areas = len(target_areas_config)
 
         names = []
diff --git a/artist/field/tower_target_areas_planar.py b/artist/field/tower_target_areas_planar.py
index bfb55e2..536c123 100644
--- a/artist/field/tower_target_areas_planar.py
+++ b/artist/field/tower_target_areas_planar.py
@@ -105,7 +105,10 @@ class TowerTargetAreasPlanar(TowerTargetAreas):
             log.info("Loading the planar tower target areas from an HDF5 file.")
 
         # Scenarios without planar target areas do not contain the corresponding HDF5 group.
-        target_areas_config = config_file.get(constants.target_area_planar_key, {})
+        try:
+            target_areas_config = config_file[constants.target_area_planar_key]
+        except KeyError:
+            target_areas_config = {}
         number_of_target_areas = len(target_areas_config)
 
         names = []
-- 
2.43.0


From 5d9da242eb584ce806e1c37e55b1e97ae1bcee46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:22 +0000
Subject: [PATCH 26/36] fix: fit each surface with the learning rate schedule
 from its start

---
 artist/scenario/surface_generator.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/artist/scenario/surface_generator.py b/artist/scenario/surface_generator.py
index 3351328..e38220f 100644
--- a/artist/scenario/surface_generator.py
+++ b/artist/scenario/surface_generator.py
@@ -1,3 +1,4 @@
+import copy
 import logging
 
 import torch
@@ -191,6 +192,9 @@ class SurfaceGenerator:
             {"params": nurbs_surface.control_points.requires_grad_()}
         )
 
+        # The learning rate starts anew with each surface, therefore the state of the scheduler has to start anew as well.
+        scheduler_state = copy.deepcopy(scheduler.state_dict()) if scheduler else None
+
         loss = torch.inf
         epoch = 0
         while loss > tolerance and epoch <= max_epoch:
@@ -220,6 +224,9 @@ class SurfaceGenerator:
                 )
             epoch += 1
 
+        if scheduler:
+            scheduler.load_state_dict(scheduler_state)
+
         return nurbs_surface
 
     def generate_fitted_surface_config(
-- 
2.43.0


From b7cb15238e01bb3eeb4359b1aa7aff56f00b2842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:47 +0000
Subject: [PATCH 27/36] fix: optimize aim points with losses other than the
 KL-divergence

---
 artist/optim/aim_point_optimizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/artist/optim/aim_point_optimizer.py b/artist/optim/aim_point_optimizer.py
index 7f9ad7a..0f7b653 100644
--- a/artist/optim/aim_point_optimizer.py
+++ b/artist/optim/aim_point_optimizer.py
@@ -876,6 +876,7 @@ class AimPointOptimizer:
                 device=device,
             )
 
+            loss = flux_loss
             if isinstance(loss_definition, KLDivergenceLoss):
                 (
                     loss,
-- 
2.43.0


From 1ffc7631dba0f6f6c2a59754fd437239bc1c9852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:58 +0000
Subject: [PATCH 28/36] fix: reduce gradients and factors of all groups in
 distributed aim point optimization

---
 artist/optim/aim_point_optimizer.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/artist/optim/aim_point_optimizer.py b/artist/optim/aim_point_optimizer.py
index 0f7b653..e745db9 100644
--- a/artist/optim/aim_point_optimizer.py
+++ b/artist/optim/aim_point_optimizer.py
@@ -450,6 +450,8 @@ class AimPointOptimizer:
                 int(self.bitmap_resolution[indices.unbatched_bitmap_e]),
             ),
             device=device,
+            # Ranks without samples have to take part in the backward pass as well.
+            requires_grad=True,
         )
         intercept_factors = torch.zeros(
             (sum(actives.sum() for actives in active_heliostats_masks_all_groups)),
@@ -517,6 +519,11 @@ class AimPointOptimizer:
                 total_flux,
                 op=torch.distributed.ReduceOp.SUM,
             )
+            # Each rank only filled in the factors of its own samples.
+            for factors in (intercept_factors, on_target_factors, blocking_factors):
+                torch.distributed.all_reduce(
+                    factors, op=torch.distributed.ReduceOp.SUM
+                )
 
         return total_flux, intercept_factors, on_target_factors, blocking_factors
 
@@ -694,12 +701,14 @@ class AimPointOptimizer:
         if self.ddp_setup[constants.is_distributed]:  # type: ignore
             for param_group in optimizer.param_groups:
                 for param in param_group["params"]:
-                    if param.grad is not None:
-                        torch.distributed.all_reduce(
-                            param.grad, op=torch.distributed.ReduceOp.SUM
-                        )
-                        # Average the gradients.
-                        param.grad /= self.ddp_setup[constants.world_size]  # type: ignore
+                    # All ranks reduce the same parameters, also those of groups that are handled by other ranks.
+                    if param.grad is None:
+                        param.grad = torch.zeros_like(param)
+                    torch.distributed.all_reduce(
+                        param.grad, op=torch.distributed.ReduceOp.SUM
+                    )
+                    # Average the gradients.
+                    param.grad /= self.ddp_setup[constants.world_size]  # type: ignore
 
     def _broadcast_motor_positions(self) -> None:
         """
-- 
2.43.0


From d912d706aebc1872b4aadd5aa750550684e39efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:53 +0000
Subject: [PATCH 29/36] fix: let all ranks of a heliostat group follow the same
 loss during reconstruction

---
 artist/optim/kinematics_reconstructor.py | 23 ++++++++-----
 artist/optim/surface_reconstructor.py    | 23 ++++++++-----
 artist/optim/training.py                 | 44 +++++++++++++++++++++++-
 3 files changed, 73 insertions(+), 17 deletions(-)

diff --git a/artist/optim/kinematics_reconstructor.py b/artist/optim/kinematics_reconstructor.py
index b47d555..cc88311 100644
--- a/artist/optim/kinematics_reconstructor.py
+++ b/artist/optim/kinematics_reconstructor.py
@@ -639,13 +639,15 @@ class KinematicsReconstructor:
             # Reduce gradients within each heliostat group.
             for param_group in optimizer.param_groups:
                 for param in param_group["params"]:
-                    if param.grad is not None:
-                        param.grad = torch.distributed.nn.functional.all_reduce(
-                            param.grad,
-                            op=torch.distributed.ReduceOp.SUM,
-                            group=self.ddp_setup["process_subgroup"],
-                        )
-                        param.grad /= self.ddp_setup["heliostat_group_world_size"]
+                    # Ranks without samples have to take part as well.
+                    if param.grad is None:
+                        param.grad = torch.zeros_like(param)
+                    param.grad = torch.distributed.nn.functional.all_reduce(
+                        param.grad,
+                        op=torch.distributed.ReduceOp.SUM,
+                        group=self.ddp_setup["process_subgroup"],
+                    )
+                    param.grad /= self.ddp_setup["heliostat_group_world_size"]
 
     def _synchronize_reconstruction_across_ranks(
         self,
@@ -988,9 +990,14 @@ class KinematicsReconstructor:
                         )
                     )
 
-                    loss.backward()
+                    if loss.requires_grad:
+                        loss.backward()
 
                     self._synchronize_gradients_nested_ddp(optimizer=optimizer)
+                    loss = training.mean_loss_of_heliostat_group(
+                        loss_per_heliostat=loss_per_heliostat,
+                        ddp_setup=self.ddp_setup,
+                    )
 
                     optimizer.step()
                     if isinstance(
diff --git a/artist/optim/surface_reconstructor.py b/artist/optim/surface_reconstructor.py
index b9173c8..252a968 100644
--- a/artist/optim/surface_reconstructor.py
+++ b/artist/optim/surface_reconstructor.py
@@ -773,13 +773,15 @@ class SurfaceReconstructor:
             # Reduce gradients within each heliostat group.
             for param_group in optimizer.param_groups:
                 for param in param_group["params"]:
-                    if param.grad is not None:
-                        torch.distributed.all_reduce(
-                            param.grad,
-                            op=torch.distributed.ReduceOp.SUM,
-                            group=self.ddp_setup["process_subgroup"],
-                        )
-                        param.grad /= self.ddp_setup["heliostat_group_world_size"]
+                    # Ranks without samples have to take part as well.
+                    if param.grad is None:
+                        param.grad = torch.zeros_like(param)
+                    torch.distributed.all_reduce(
+                        param.grad,
+                        op=torch.distributed.ReduceOp.SUM,
+                        group=self.ddp_setup["process_subgroup"],
+                    )
+                    param.grad /= self.ddp_setup["heliostat_group_world_size"]
 
         # Geometry-preserving constraint: Keep the surfaces in their original geometric shape by locking
         # the control points on the outer edges, i.e., zero/fix gradient on outer-edge control points.
@@ -1056,7 +1058,8 @@ class SurfaceReconstructor:
 
                     total_loss = torch.mean(total_loss_per_heliostat)
 
-                    total_loss.backward()
+                    if total_loss.requires_grad:
+                        total_loss.backward()
 
                     # Update Augmented-Lagrangian multiplier.
                     with torch.no_grad():
@@ -1069,6 +1072,10 @@ class SurfaceReconstructor:
                     self._synchronize_and_lock_gradients(
                         optimizer=optimizer, device=device
                     )
+                    total_loss = training.mean_loss_of_heliostat_group(
+                        loss_per_heliostat=total_loss_per_heliostat,
+                        ddp_setup=self.ddp_setup,
+                    )
 
                     optimizer.step()
                     if isinstance(
diff --git a/artist/optim/training.py b/artist/optim/training.py
index a44402e..aa1a31f 100644
--- a/artist/optim/training.py
+++ b/artist/optim/training.py
@@ -7,7 +7,7 @@ from torch.optim import Optimizer
 from torch.optim.lr_scheduler import LRScheduler
 
 from artist.util import constants
-from artist.util.env import get_device
+from artist.util.env import DdpSetup, get_device
 
 
 def exponential(
@@ -185,6 +185,48 @@ class EarlyStopping:
         return self.counter >= self.patience
 
 
+def mean_loss_of_heliostat_group(
+    loss_per_heliostat: torch.Tensor, ddp_setup: DdpSetup
+) -> torch.Tensor:
+    """
+    Compute the mean loss of all heliostats of a group, including those handled by other ranks.
+
+    All ranks of a heliostat group need to base their decisions (learning rate schedule, early stopping)
+    on the same loss, otherwise they would optimize the same parameters differently.
+
+    Parameters
+    ----------
+    loss_per_heliostat : torch.Tensor
+        The loss of each heliostat handled by the current rank.
+        Tensor of shape [number_of_local_heliostats].
+    ddp_setup : DdpSetup
+        Information about the distributed environment.
+
+    Returns
+    -------
+    torch.Tensor
+        The mean loss of the heliostat group.
+        Tensor of shape [].
+    """
+    loss_per_heliostat = loss_per_heliostat.detach()
+
+    if not ddp_setup["is_nested"]:
+        return loss_per_heliostat.mean()
+
+    sum_and_count = torch.stack(
+        [
+            loss_per_heliostat.sum(),
+            torch.full_like(loss_per_heliostat.sum(), loss_per_heliostat.numel()),
+        ]
+    )
+    torch.distributed.all_reduce(
+        sum_and_count,
+        op=torch.distributed.ReduceOp.SUM,
+        group=ddp_setup["process_subgroup"],
+    )
+    return sum_and_count[0] / sum_and_count[1]
+
+
 @dataclass
 class TrainTestSplit:
     """
-- 
2.43.0


From 8ea347a70ca8a38f25e57f13868c2e71560a6ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:53 +0000
Subject: [PATCH 30/36] fix: synchronize the alignment-driven kinematics
 reconstruction across ranks

---
 artist/optim/kinematics_reconstructor.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/artist/optim/kinematics_reconstructor.py b/artist/optim/kinematics_reconstructor.py
index cc88311..acb7868 100644
--- a/artist/optim/kinematics_reconstructor.py
+++ b/artist/optim/kinematics_reconstructor.py
@@ -878,12 +878,17 @@ class KinematicsReconstructor:
 
                 log.info(f"Rank: {rank}, Kinematics reconstructed.")
 
+        final_loss_history_all_groups = self._synchronize_reconstruction_across_ranks(
+            final_loss_per_heliostat=final_loss_per_heliostat,
+            loss_history=loss_history,
+        )
+
         for heliostat_group in self.scenario.heliostat_field.heliostat_groups:
             heliostat_group.kinematics.rotation_deviation_parameters = (
                 heliostat_group.kinematics.rotation_deviation_parameters.detach()
             )
 
-        return final_loss_per_heliostat.detach().cpu(), [loss_history]
+        return final_loss_per_heliostat.detach().cpu(), final_loss_history_all_groups
 
     def _reconstruct_kinematics_flux_driven(
         self,
-- 
2.43.0


From a4377272f170ac77c23fd4e993e507c4df2b2471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:10 +0000
Subject: [PATCH 31/36] fix: trace surfaces that are sampled differently than
 the scenario

---
 artist/raytracing/heliostat_ray_tracer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/artist/raytracing/heliostat_ray_tracer.py b/artist/raytracing/heliostat_ray_tracer.py
index a406f69..14eb997 100644
--- a/artist/raytracing/heliostat_ray_tracer.py
+++ b/artist/raytracing/heliostat_ray_tracer.py
@@ -196,7 +196,7 @@ class HeliostatRayTracer:
             # Calculate ray magnitude.
             power_single_heliostat = dni * heliostat_surface_area
             rays_per_heliostat = (
-                self.heliostat_group.surface_points.shape[1]
+                self.heliostat_group.active_surface_points.shape[1]
                 * self.scenario.light_sources.light_source_list[
                     indices.first_light_source
                 ].number_of_rays
@@ -375,7 +375,7 @@ class HeliostatRayTracer:
                 (
                     int(active_heliostats_mask_batch.sum()),
                     self.light_source.number_of_rays,
-                    self.heliostat_group.surface_points.shape[1],
+                    self.heliostat_group.active_surface_points.shape[1],
                 ),
                 device=device,
             )
@@ -383,7 +383,7 @@ class HeliostatRayTracer:
                 (
                     int(active_heliostats_mask_batch.sum()),
                     self.light_source.number_of_rays,
-                    self.heliostat_group.surface_points.shape[1],
+                    self.heliostat_group.active_surface_points.shape[1],
                 ),
                 device=device,
             )
@@ -391,7 +391,7 @@ class HeliostatRayTracer:
                 (
                     int(active_heliostats_mask_batch.sum()),
                     self.light_source.number_of_rays,
-                    self.heliostat_group.surface_points.shape[1],
+                    self.heliostat_group.active_surface_points.shape[1],
                 ),
                 device=device,
             )
@@ -399,7 +399,7 @@ class HeliostatRayTracer:
                 (
                     int(active_heliostats_mask_batch.sum()),
                     self.light_source.number_of_rays,
-                    self.heliostat_group.surface_points.shape[1],
+                    self.heliostat_group.active_surface_points.shape[1],
                 ),
                 device=device,
             )
-- 
2.43.0


From f6dbbda563e6196168ab540d7fcb36a0d6057344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:28 +0000
Subject: [PATCH 32/36] fix: reconstruct surfaces although no ray of a
 heliostat group reaches its target area

---
 artist/optim/surface_reconstructor.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/artist/optim/surface_reconstructor.py b/artist/optim/surface_reconstructor.py
index 252a968..d6b9e98 100644
--- a/artist/optim/surface_reconstructor.py
+++ b/artist/optim/surface_reconstructor.py
@@ -768,14 +768,17 @@ class SurfaceReconstructor:
         device : torch.device
             The device on which to perform computations or load tensors and models.
         """
+        # There are no gradients on ranks without samples or if no ray reaches its target area.
+        for param_group in optimizer.param_groups:
+            for param in param_group["params"]:
+                if param.grad is None:
+                    param.grad = torch.zeros_like(param)
+
         # Nested-DDP gradient synchronization within heliostat-group subgroup.
         if self.ddp_setup["is_nested"]:
             # Reduce gradients within each heliostat group.
             for param_group in optimizer.param_groups:
                 for param in param_group["params"]:
-                    # Ranks without samples have to take part as well.
-                    if param.grad is None:
-                        param.grad = torch.zeros_like(param)
                     torch.distributed.all_reduce(
                         param.grad,
                         op=torch.distributed.ReduceOp.SUM,
-- 
2.43.0


From 1a9f211cc6a78a449382a31dd836b11795c705bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:59 +0000
Subject: [PATCH 33/36] fix: crop no flux images on ranks without samples

---
 artist/flux/bitmap.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/artist/flux/bitmap.py b/artist/flux/bitmap.py
index ce24ca9..1a6b6cc 100644
--- a/artist/flux/bitmap.py
+++ b/artist/flux/bitmap.py
@@ -165,6 +165,10 @@ def crop_flux_distributions_around_center(
 
     number_of_flux_distributions, image_height, image_width = flux_distributions.shape
 
+    # The affine transformation is not defined without images, e.g., on ranks without samples.
+    if number_of_flux_distributions == 0:
+        return flux_distributions
+
     # Compute center of mass in normalized image coordinates [-1, 1].
     normalized_mass_map = flux_distributions / (
         flux_distributions.sum(
-- 
2.43.0


From 4fbd94851717870380e3bae24b673cbc4e4a865b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:50 +0000
Subject: [PATCH 34/36] fix: surface area of mirrors from the lengths of their
 canting vectors

---
 artist/raytracing/heliostat_ray_tracer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/artist/raytracing/heliostat_ray_tracer.py b/artist/raytracing/heliostat_ray_tracer.py
index 14eb997..fb1d0e0 100644
--- a/artist/raytracing/heliostat_ray_tracer.py
+++ b/artist/raytracing/heliostat_ray_tracer.py
@@ -187,7 +187,7 @@ class HeliostatRayTracer:
 
         if dni is not None:
             # Calculate surface area per heliostat.
-            canting_norm = (torch.norm(self.heliostat_group.canting[0], dim=1)[0])[:2]
+            canting_norm = (torch.norm(self.heliostat_group.canting[0], dim=2)[0])[:2]
             dimensions = (canting_norm * 4) + 0.02
             heliostat_surface_area = (
                 dimensions[indices.heliostat_width]
-- 
2.43.0


From 372e595feb5dbaed6f7bc4bda7f9c02ce400320a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:03 +0000
Subject: [PATCH 35/36] fix: let the regularizers of the surface reconstruction
 contribute gradients

---
 artist/optim/surface_reconstructor.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/artist/optim/surface_reconstructor.py b/artist/optim/surface_reconstructor.py
index d6b9e98..81c903f 100644
--- a/artist/optim/surface_reconstructor.py
+++ b/artist/optim/surface_reconstructor.py
@@ -734,15 +734,27 @@ class SurfaceReconstructor:
                 device=device,
             )
         # Dynamic balancing of regularization magnitudes relative to data term.
+        # The balancing factors are constants in the gradient computation, otherwise they would cancel the
+        # gradients of the regularizers.
+        mean_flux_loss, mean_smoothness_loss, mean_ideal_surface_loss = (
+            training.mean_loss_of_heliostat_group(
+                loss_per_heliostat=loss_per_heliostat, ddp_setup=self.ddp_setup
+            )
+            for loss_per_heliostat in (
+                flux_loss_per_heliostat,
+                smoothness_loss_per_heliostat,
+                ideal_surface_loss_per_heliostat,
+            )
+        )
         alpha = (
             weight_smoothness
-            * flux_loss_per_heliostat.mean()
-            / (smoothness_loss_per_heliostat.mean() + torch.tensor(self.epsilon))
+            * mean_flux_loss
+            / (mean_smoothness_loss + torch.tensor(self.epsilon))
         )
         beta = (
             weight_ideal_surface
-            * flux_loss_per_heliostat.mean()
-            / (ideal_surface_loss_per_heliostat.mean() + torch.tensor(self.epsilon))
+            * mean_flux_loss
+            / (mean_ideal_surface_loss + torch.tensor(self.epsilon))
         )
         return (
             alpha,
-- 
2.43.0


From 999529a558374517393ebbcf2fa7899f36f23c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:12 +0000
Subject: [PATCH 36/36] fix: let heliostats block light where they are in
 distributed aim point optimization

---
 artist/optim/aim_point_optimizer.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/artist/optim/aim_point_optimizer.py b/artist/optim/aim_point_optimizer.py
index e745db9..2071942 100644
--- a/artist/optim/aim_point_optimizer.py
+++ b/artist/optim/aim_point_optimizer.py
@@ -356,9 +356,9 @@ class AimPointOptimizer:
         device: torch.device,
     ) -> None:
         """
-        Align all heliostat groups on this rank from the reparameterized motor positions.
+        Align all heliostat groups from the reparameterized motor positions.
 
-        The true motor positions are reconstructed from the ``tanh``-reparameterized parameters.
+        Every rank aligns the heliostat groups of all ranks, since heliostats block the rays of other groups. The true motor positions are reconstructed from the ``tanh``-reparameterized parameters.
 
         Parameters
         ----------
@@ -373,13 +373,9 @@ class AimPointOptimizer:
         device : torch.device
             The device on which to perform computations or load tensors and models.
         """
-        rank = self.ddp_setup["rank"]
-
-        for heliostat_group_index in self.ddp_setup["groups_to_ranks_mapping"][rank]:
-            heliostat_alignment_group: HeliostatGroup = (
-                self.scenario.heliostat_field.heliostat_groups[heliostat_group_index]
-            )
-
+        for heliostat_group_index, heliostat_alignment_group in enumerate(
+            self.scenario.heliostat_field.heliostat_groups
+        ):
             # Reconstruct true motor positions from reparameterized version.
             motor_positions_normalized = torch.tanh(
                 optimizer.param_groups[indices.optimizer_param_group_0]["params"][
-- 
2.43.0

