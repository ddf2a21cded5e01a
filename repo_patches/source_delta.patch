From 89d890ab13e60510a6ee54e76bd85ed6e4ede48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:46 +0000
Subject: [PATCH 01/40] fix: apply the intensity threshold when trimming rays

The third positional argument of np.logical_or is its output array, so rays
below ray_intensity_threshold were never removed from the simulation.
---
 pyrayt/_pyrayt.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pyrayt/_pyrayt.py b/pyrayt/_pyrayt.py
index 8005f85..8ea202d 100644
--- a/pyrayt/_pyrayt.py
+++ b/pyrayt/_pyrayt.py
@@ -414,9 +414,7 @@ class RayTracer(object):
         # (no intersection)
         absorbed_rays = np.isclose(np.linalg.norm(self._ray_set.rays[1], axis=0), 0)
         powerless_rays = self._ray_set.intensity < self.ray_intensity_threshold
-        dead_rays = np.logical_or(
-            absorbed_rays, self._hit_surfaces == -1, powerless_rays
-        )
+        dead_rays = absorbed_rays | (self._hit_surfaces == -1) | powerless_rays
         living_rays = np.logical_not(dead_rays)  # living rays aren't dead...
         # increment the generation number
 
-- 
2.43.0


From 9bc18ee0e7514108851c0f5ff5b07e0afee5ee4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:47 +0000
Subject: [PATCH 02/40] fix: trace the components that are currently loaded

The surface lookup table was only built in the constructor, so rays hitting a
component loaded by load_components() (or added to the component list) neither
moved to the surface nor interacted with its material.
---
 pyrayt/_pyrayt.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyrayt/_pyrayt.py b/pyrayt/_pyrayt.py
index 8ea202d..b29a687 100644
--- a/pyrayt/_pyrayt.py
+++ b/pyrayt/_pyrayt.py
@@ -254,11 +254,6 @@ class RayTracer(object):
         self._ray_set = RaySet(0)
         self._next_ray_set = RaySet(0)
 
-        # make a flattened list of all surface IDS
-        self._surface_lut = tuple()
-        for shape in self._components:
-            self._surface_lut += shape.surface_ids
-
     def reset(self):
         """
         Reset the simulation, destroying the current results dataframe.
@@ -356,6 +351,11 @@ class RayTracer(object):
     def _st_initialize(self):
         self.reset()  # reset the renderer states/generation number
 
+        # make a flattened list of all surface IDS in the current components
+        self._surface_lut = tuple()
+        for shape in self._components:
+            self._surface_lut += shape.surface_ids
+
         # make a ray set from the concatenated ray sets returned by the sources
         self._ray_set = np.hstack(
             [source.generate_rays(self._rays_per_source) for source in self._sources]
-- 
2.43.0


From eada231192d05f67ad337b36d2ac67d3d5a8203d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:48 +0000
Subject: [PATCH 03/40] fix: get_system returns the current components

It read an attribute that is never assigned and always raised.
---
 pyrayt/_pyrayt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrayt/_pyrayt.py b/pyrayt/_pyrayt.py
index b29a687..40da792 100644
--- a/pyrayt/_pyrayt.py
+++ b/pyrayt/_pyrayt.py
@@ -319,7 +319,7 @@ class RayTracer(object):
         :return: List[tinygfx.g3d.world_objects.Intersectable]
         """
 
-        return self._system
+        return self._components
 
     def trace(self):
         self._state = RayTracer._States.INITIALIZE  # kick off the state machine
-- 
2.43.0


From 5a9163a31bc48ec8e370635c4b0a492c0ad1476f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:49 +0000
Subject: [PATCH 04/40] fix: honour generation limits the generation counter
 does not hit exactly

With a limit of zero (or a non-integer limit) the equality test never matched
and a trapped ray was traced forever.
---
 pyrayt/_pyrayt.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyrayt/_pyrayt.py b/pyrayt/_pyrayt.py
index 40da792..8f065c6 100644
--- a/pyrayt/_pyrayt.py
+++ b/pyrayt/_pyrayt.py
@@ -363,9 +363,12 @@ class RayTracer(object):
         self._ray_set.id = np.arange(
             self._ray_set.n_rays
         )  # update the ID's to avoid duplicates
+        # update the state machine to propagate through the system, unless no generation is allowed
         self._state = (
             self._States.PROPAGATE
-        )  # update the state machine to propagate through the system
+            if self._generation_limit > 0
+            else self._States.FINISH
+        )
 
     def _st_propagate(self):
         # the hits matrix is an 1xn matrix to track the nearest hits
@@ -439,7 +442,7 @@ class RayTracer(object):
             next_ray_set.generation = self._generation_number
 
             # if we hit the generation limit exit the sim
-            if self._generation_number == self._generation_limit:
+            if self._generation_number >= self._generation_limit:
                 self._state = RayTracer._States.FINISH
 
             else:
-- 
2.43.0


From 5883b6320123f69954fa6debea2ca94bd160fd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:32 +0000
Subject: [PATCH 05/40] fix: assign source ids with the ray count the results
 were traced with

calculate_source_ids() and show(color_function="source") used the current
setting, which may have changed since the trace.
---
 pyrayt/_pyrayt.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyrayt/_pyrayt.py b/pyrayt/_pyrayt.py
index 8f065c6..264debb 100644
--- a/pyrayt/_pyrayt.py
+++ b/pyrayt/_pyrayt.py
@@ -239,6 +239,7 @@ class RayTracer(object):
             self._components = components
 
         self._rays_per_source = rays_per_source
+        self._traced_rays_per_source = rays_per_source  # value the results were made with
         self._generation_limit = (
             generation_limit  # how many reflections/refractions a ray can encounter
         )
@@ -345,7 +346,7 @@ class RayTracer(object):
         """
         Calculates the Source ID for every ray in the dataframe, adding it as a column
         """
-        ids = (self._frame.data["id"] / self._rays_per_source).astype(int)
+        ids = (self._frame.data["id"] / self._traced_rays_per_source).astype(int)
         self._frame.data["source_id"] = ids
 
     def _st_initialize(self):
@@ -357,6 +358,7 @@ class RayTracer(object):
             self._surface_lut += shape.surface_ids
 
         # make a ray set from the concatenated ray sets returned by the sources
+        self._traced_rays_per_source = self._rays_per_source
         self._ray_set = np.hstack(
             [source.generate_rays(self._rays_per_source) for source in self._sources]
         ).view(RaySet)
@@ -486,8 +488,8 @@ class RayTracer(object):
             for n, this_color in enumerate(colors):
                 color = np.where(
                     np.logical_and(
-                        self._frame.data["id"] >= n * self._rays_per_source,
-                        self._frame.data["id"] < (n + 1) * self._rays_per_source,
+                        self._frame.data["id"] >= n * self._traced_rays_per_source,
+                        self._frame.data["id"] < (n + 1) * self._traced_rays_per_source,
                     ),
                     np.atleast_2d(this_color).T,
                     color,
-- 
2.43.0


From ff2d531033dd6605d90f135ae10bd2275f3fffcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:33 +0000
Subject: [PATCH 06/40] fix: show() draws the components when no ray hit
 anything

quiver() raises when it is given empty arrays.
---
 pyrayt/_pyrayt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrayt/_pyrayt.py b/pyrayt/_pyrayt.py
index 264debb..f810e75 100644
--- a/pyrayt/_pyrayt.py
+++ b/pyrayt/_pyrayt.py
@@ -520,7 +520,7 @@ class RayTracer(object):
         y0 = ax1 + "0"
 
         # if the simulation has been run plot the results
-        if self._simulation_complete:
+        if self._simulation_complete and not self._frame.data.empty:
             u = self._frame.data[x1].sub(self._frame.data[x0])
             v = self._frame.data[y1].sub(self._frame.data[y0])
             axis.set_aspect("equal")
-- 
2.43.0


From dbf010388413f903b14d6d18aa45b5b21b34cbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:34 +0000
Subject: [PATCH 07/40] fix: pin restores members that are pinned before the
 object that contains them

---
 pyrayt/_pyrayt.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pyrayt/_pyrayt.py b/pyrayt/_pyrayt.py
index f810e75..6939ecb 100644
--- a/pyrayt/_pyrayt.py
+++ b/pyrayt/_pyrayt.py
@@ -572,7 +572,15 @@ class pin(object):
 
     def __exit__(self, exception_type, exception_value, traceback):
 
-        for this_object, starting_matrix in zip(self._obj_set, self._starting_matrices):
-            final_matrix = this_object.get_world_transform()
-            matrix_change = np.matmul(final_matrix, np.linalg.inv(starting_matrix))
-            this_object.transform(np.linalg.inv(matrix_change))
+        # restoring a group or CSG object also moves its members, so a member that was already restored has to be
+        # restored again. Every pass restores at least one more level of nesting.
+        for _ in self._obj_set:
+            for this_object, starting_matrix in zip(
+                self._obj_set, self._starting_matrices
+            ):
+                final_matrix = this_object.get_world_transform()
+                if not np.array_equal(final_matrix, starting_matrix):
+                    matrix_change = np.matmul(
+                        final_matrix, np.linalg.inv(starting_matrix)
+                    )
+                    this_object.transform(np.linalg.inv(matrix_change))
-- 
2.43.0


From 8a3e4248ec95465b0bb6ec37df981c36010f7498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:35 +0000
Subject: [PATCH 08/40] fix: keep the order of equal hits when merging CSG
 surfaces

The merge reads entering and leaving hits off the parity of the sort index, and
the surface of a hit off a second sort of the same values. The default argsort
leaves the order of equal values open (with AVX512 it does change it), so both
hits of an XYPlane could be dropped or a hit be credited to another surface.
---
 tinygfx/g3d/csg.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tinygfx/g3d/csg.py b/tinygfx/g3d/csg.py
index 9dad29f..714a95e 100644
--- a/tinygfx/g3d/csg.py
+++ b/tinygfx/g3d/csg.py
@@ -28,13 +28,13 @@ def array_csg(
     if array1.ndim == 1:
         # if 1D arrays were passed, concatenate
         merged_array = np.concatenate((array1, array2))
-        merged_argsort = np.argsort(merged_array, axis=0)
+        merged_argsort = np.argsort(merged_array, axis=0, kind="stable")
         merged_array = merged_array[merged_argsort]
 
     else:
         # otherwise stack them where each column represents a unique ray's hits
         merged_array = np.vstack((array1, array2))
-        merged_argsort = np.argsort(merged_array, axis=0)
+        merged_argsort = np.argsort(merged_array, axis=0, kind="stable")
         merged_array = merged_array[merged_argsort, np.arange(merged_array.shape[-1])]
 
     if operation == Operation.UNION or operation == Operation.INTERSECT:
@@ -136,7 +136,7 @@ class CSGSurface(Intersectable):
 
         # build a mask to sort the surfaces
         csg_surfaces = np.vstack((l_surfaces, r_surfaces))
-        surface_sort_mask = np.argsort(np.vstack((l_hits, r_hits)), axis=0)
+        surface_sort_mask = np.argsort(np.vstack((l_hits, r_hits)), axis=0, kind="stable")
         csg_surfaces = csg_surfaces[
             surface_sort_mask, np.arange(csg_surfaces.shape[-1])
         ]
@@ -144,7 +144,7 @@ class CSGSurface(Intersectable):
         csg_hits = array_csg(l_hits, r_hits, self._operation, sort_output=False)
 
         # sort the hits and the surface mask
-        hit_argsort = np.argsort(csg_hits, axis=0)
+        hit_argsort = np.argsort(csg_hits, axis=0, kind="stable")
         csg_surfaces = csg_surfaces[hit_argsort, np.arange(csg_surfaces.shape[-1])]
         csg_hits = csg_hits[hit_argsort, np.arange(csg_hits.shape[-1])]
 
-- 
2.43.0


From d1da1541ddc8c1f0f6161878e80465e60e4246d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:36 +0000
Subject: [PATCH 09/40] fix: bounding box of a union covers both children

For children that are apart along an axis only the first span was kept, and rays
that hit the other child were culled.
---
 tinygfx/g3d/csg.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/tinygfx/g3d/csg.py b/tinygfx/g3d/csg.py
index 714a95e..bdb15ef 100644
--- a/tinygfx/g3d/csg.py
+++ b/tinygfx/g3d/csg.py
@@ -96,11 +96,18 @@ class CSGSurface(Intersectable):
         :return:
         """
         if self._operation != Operation.DIFFERENCE:
-            new_spans = array_csg(
-                self._l_child.bounding_box.axis_spans.T,
-                self._r_child.bounding_box.axis_spans.T,
-                self._operation,
-            )
+            l_spans = self._l_child.bounding_box.axis_spans.T
+            r_spans = self._r_child.bounding_box.axis_spans.T
+            if self._operation == Operation.UNION:
+                # the children of a union do not have to overlap
+                new_spans = np.vstack(
+                    (
+                        np.minimum(l_spans[0], r_spans[0]),
+                        np.maximum(l_spans[1], r_spans[1]),
+                    )
+                )
+            else:
+                new_spans = array_csg(l_spans, r_spans, self._operation)
 
             # check if the resulting spans are valid
             # if (self._operation == Operation.UNION and np.any(np.isfinite(new_spans[2:]))) or \
-- 
2.43.0


From f8cc8f36d04d17714faf6e4007abceac33297f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:38 +0000
Subject: [PATCH 10/40] fix: moving a part of a nested CSG object updates every
 enclosing bounding box

attach_to copied the watchlist of the parent, so an object the parent was
attached to later on was not told about the change and kept a stale box.
---
 tinygfx/g3d/world_objects.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tinygfx/g3d/world_objects.py b/tinygfx/g3d/world_objects.py
index 94d4fd7..b855d1a 100644
--- a/tinygfx/g3d/world_objects.py
+++ b/tinygfx/g3d/world_objects.py
@@ -314,7 +314,10 @@ class Intersectable(WorldObject, abc.ABC):
 
     def attach_to(self, parent_object: WorldObject) -> None:
         self._parent = parent_object
-        self.var_watchlist += parent_object.var_watchlist
+        # look the parent's functions up when they are called, as it may be attached to another object later on
+        self.var_watchlist.append(
+            lambda: [fn() for fn in list(parent_object.var_watchlist)]
+        )
 
     def invert_normals(self):
         self._normal_scale = -1
-- 
2.43.0


From 4bf6fe0162602af4ad05ef11db60b2f62dbc5224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:39 +0000
Subject: [PATCH 11/40] fix: normals of nested CSG differences

Subtracting an object that is a difference itself turns its subtracted surfaces
back to facing outwards, and resetting the normals of a CSG object restores the
orientation it was made with.
---
 tinygfx/g3d/csg.py           | 3 +++
 tinygfx/g3d/world_objects.py | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/tinygfx/g3d/csg.py b/tinygfx/g3d/csg.py
index bdb15ef..9e85e01 100644
--- a/tinygfx/g3d/csg.py
+++ b/tinygfx/g3d/csg.py
@@ -173,6 +173,9 @@ class CSGSurface(Intersectable):
     def reset_normals(self):
         self._l_child.reset_normals()
         self._r_child.reset_normals()
+        # the subtracted surfaces of a difference face the other way by default
+        if self._operation == Operation.DIFFERENCE:
+            self._r_child.invert_normals()
 
     @property
     def surface_ids(self) -> tuple:
diff --git a/tinygfx/g3d/world_objects.py b/tinygfx/g3d/world_objects.py
index b855d1a..7519f69 100644
--- a/tinygfx/g3d/world_objects.py
+++ b/tinygfx/g3d/world_objects.py
@@ -320,7 +320,7 @@ class Intersectable(WorldObject, abc.ABC):
         )
 
     def invert_normals(self):
-        self._normal_scale = -1
+        self._normal_scale = -self._normal_scale
 
     def reset_normals(self):
         self._normal_scale = 1
-- 
2.43.0


From 60fd395abe547b32bad795c89a34b9755f29f556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:12 +0000
Subject: [PATCH 12/40] fix: rays almost parallel to the axis of a cylinder or
 paraboloid

A quadratic term below 1e-8 was taken for zero, although a ray tilted by 1e-4 rad
(or any ray against a surface that is scaled up enough) has one: such rays missed
cylinders altogether, so they got lost in lenses, and hit paraboloids beside the
surface. Use the form of the roots that stays accurate for small terms instead.
---
 tinygfx/g3d/operations.py | 16 +++++++++++++---
 tinygfx/g3d/primitives.py | 12 +++---------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/tinygfx/g3d/operations.py b/tinygfx/g3d/operations.py
index 9eb7a35..49eee0c 100644
--- a/tinygfx/g3d/operations.py
+++ b/tinygfx/g3d/operations.py
@@ -40,13 +40,23 @@ def binomial_root(a, b, c, disc=None):
         b ** 2 - 4 * a * c if disc is None else disc
     )  # find the discriminant, or use the provided one
     # linear cases are where there's no expontential term, have to be handled separately
-    linear_cases = np.isclose(a, 0)
+    # a small exponential term (e.g. a ray almost parallel to the axis of a cylinder) is not a linear case
+    linear_cases = np.isclose(a, 0, atol=1e-30)
     root = np.sqrt(
         np.maximum(0, disc)
     )  # the square root of the discriminant protected from being nan
 
-    # solve for the polynomial roots
-    polyroots = np.vstack(((-b + root), (-b - root))) / (2 * a + np.isclose(a, 0))
+    # solve for the polynomial roots, adding terms of the same sign only so no digits cancel out when a is small
+    b_positive = b >= 0
+    q = np.where(b_positive, -b - root, -b + root) / 2
+    root_from_a = q / (a + linear_cases)
+    root_from_c = np.where(q == 0, 0, c / (q + (q == 0)))
+    polyroots = np.vstack(
+        (
+            np.where(b_positive, root_from_c, root_from_a),
+            np.where(b_positive, root_from_a, root_from_c),
+        )
+    )
     # Now correct for the cases that should be infinite
     polyroots = np.where(disc >= 0, polyroots, np.inf)
 
diff --git a/tinygfx/g3d/primitives.py b/tinygfx/g3d/primitives.py
index ef28092..69f886a 100644
--- a/tinygfx/g3d/primitives.py
+++ b/tinygfx/g3d/primitives.py
@@ -343,16 +343,10 @@ class Paraboloid(SurfacePrimitive):
         # calculate the binomial roots of the function
         disc = b ** 2 - 4 * a * c  # the discriminant of the sqrt in the roots equation
         # linear cases are where there's no expontential term, have to be handled separately
-        linear_cases = np.isclose(a, 0)
-        root = np.sqrt(
-            np.maximum(0, disc)
-        )  # the square root of the discriminant protected from being nan
+        linear_cases = np.isclose(a, 0, atol=1e-30)
 
-        # solve for the polynomial roots
-        parabola_hits = np.vstack(((-b + root), (-b - root))) / (2 * a + linear_cases)
-
-        # Now correct for the cases that should be infinite (no intersection)
-        parabola_hits = np.where(disc >= 0, parabola_hits, np.inf)
+        # solve for the polynomial roots, which are infinite where there is no intersection
+        parabola_hits = binomial_root(a, b, c, disc)
 
         # update for the linear roots case
         # for linear cases, the second intersection should be +inf if the ray is traveling in the positive z direction
-- 
2.43.0


From ff12dd02e208627717ae7294d42a712bf3ee6a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:09 +0000
Subject: [PATCH 13/40] fix: smallest_positive_root with a negative quadratic
 term

The roots come out in the other order then, and a negative and a positive root
were reported as no root.
---
 tinygfx/g3d/operations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tinygfx/g3d/operations.py b/tinygfx/g3d/operations.py
index 49eee0c..569d9ed 100644
--- a/tinygfx/g3d/operations.py
+++ b/tinygfx/g3d/operations.py
@@ -20,9 +20,9 @@ def smallest_positive_root(a, b, c):
         2 * a + np.isclose(a, 0)
     )  # the positive element of the polynomial root
 
-    # want to keep the smallest hit that is positive, so if hits[1]<0, just keep the positive hit
-    nearest_hit = np.where(polyroots[1] >= 0, np.amin(polyroots, axis=0), polyroots[0])
-    return np.where(np.logical_and(disc >= 0, nearest_hit >= 0), nearest_hit, np.inf)
+    # want to keep the smallest hit that is positive, whichever of the two roots that is
+    nearest_hit = np.amin(np.where(polyroots >= 0, polyroots, np.inf), axis=0)
+    return np.where(disc >= 0, nearest_hit, np.inf)
 
 
 def binomial_root(a, b, c, disc=None):
-- 
2.43.0


From 8eadf0e36ad710324aeb5965fd627359c0dbd7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:11 +0000
Subject: [PATCH 14/40] fix: refract does not normalize the vectors of the
 caller in place

---
 tinygfx/g3d/operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tinygfx/g3d/operations.py b/tinygfx/g3d/operations.py
index 569d9ed..7097ba1 100644
--- a/tinygfx/g3d/operations.py
+++ b/tinygfx/g3d/operations.py
@@ -132,7 +132,7 @@ def refract(vectors, normals, n1, n2, n_global=1):
     :return: a 4xn array of homogeneous vectors representing the new transmission direction of the vectors after the
         medium
     """
-    vectors /= np.linalg.norm(vectors, axis=0)
+    vectors = vectors / np.linalg.norm(vectors, axis=0)
     cos_theta1_p = element_wise_dot(
         vectors, normals, axis=0
     )  # the angle dotted with the normals
-- 
2.43.0


From 84ace1e5931282f7987c33792217a7c4cfd0b01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:12 +0000
Subject: [PATCH 15/40] fix: elliptical apertures

The cylinder was bound to the name of the argument that holds the diameters, and
never returned. A parabolic mirror has to be as tall as the far side of its
aperture for the negative diameters of an ellipse, too.
---
 pyrayt/components.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index e7d950d..9b72b1d 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -42,12 +42,12 @@ def _create_aperture(aperture: Union[float, tuple], thickness):
 
     elif aperture[0] < 0 and aperture[1] < 0:
         # if two values were passed it's elliptical
-        aperture = cg.Cylinder(
+        ellipse = cg.Cylinder(
             radius=np.abs(aperture[0]) / 2,
             min_height=-thickness / 2,
             max_height=thickness / 2,
         )
-        aperture.scale_y(aperture[1] / aperture[0])
+        return ellipse.scale_y(aperture[1] / aperture[0])
 
     else:
         raise TypeError(f"Could not deduce an aperture from {aperture}")
@@ -372,7 +372,7 @@ def parabolic_mirror(focus: float, thickness: float, **kwargs) -> cg.csg.Interse
     if hasattr(aperture, "__len__"):
         # if it's a rectangular aperture the dl is the norm of he rectangle
         furthest_point = np.linalg.norm(
-            np.abs(np.asarray(off_axis)) + np.asarray(aperture) / 2
+            np.abs(np.asarray(off_axis)) + np.abs(np.asarray(aperture)) / 2
         )
     else:
         # otherwise if it's circular it's just the radius
-- 
2.43.0


From 0b22da45d561ebd5bd3e598b72014d896a203844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:13 +0000
Subject: [PATCH 16/40] fix: radii of biconvex and plano-convex lenses

A biconvex lens with two different radii had its surfaces displaced, as each
radius was used for the sphere of the other side, and the documented negative and
infinite radii made objects that no ray hits.
---
 pyrayt/components.py | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index 9b72b1d..b8922c2 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -181,18 +181,20 @@ def biconvex_lens(r1: float, r2: float, thickness: float, **kwargs) -> cg.Inters
     """
 
     # create an aperture from the aperture arguments
-    aperture_shape = _create_aperture(kwargs.get("aperture"), thickness)
-    left_side = cg.Sphere(r2).move_z(r1 - thickness / 2)
-    right_side = cg.Sphere(r1).move_z(-(r1 - thickness / 2))
-
-    # assign materials from the kwargs
     material = kwargs.get("material")
-    aperture_shape.material = material
-    left_side.material = material
-    right_side.material = material
+    lens = _create_aperture(kwargs.get("aperture"), thickness)
+    lens.material = material
+
+    # intersect with the left side, if it's infinite leave the aperture planar
+    r1, r2 = np.abs(r1), np.abs(r2)
+    if np.isfinite(r1):
+        left_side = cg.Sphere(r1, material=material).move_z(r1 - thickness / 2)
+        lens = cg.csg.intersect(left_side, lens)
 
-    # perform csg to get the final lens
-    lens = cg.csg.intersect(cg.csg.intersect(left_side, right_side), aperture_shape)
+    # intersect with the right side
+    if np.isfinite(r2):
+        right_side = cg.Sphere(r2, material=material).move_z(-(r2 - thickness / 2))
+        lens = cg.csg.intersect(right_side, lens)
 
     # now we need to rotate the lens so it's orientated in the YZ plane
     return lens
@@ -214,16 +216,14 @@ def plano_convex_lens(r: float, thickness: float, **kwargs) -> cg.csg.Intersecta
     """
 
     # create an aperture from the aperture arguments
-    aperture = _create_aperture(kwargs.get("aperture"), thickness)
-    right_side = cg.Sphere(r).move_z(-(r - thickness / 2))
-
-    # assign materials from the kwargs
-    material = kwargs.get("material")
-    aperture.material = material
-    right_side.material = material
+    lens = _create_aperture(kwargs.get("aperture"), thickness)
+    lens.material = kwargs.get("material")
 
-    # perform csg to get the final lens
-    lens = cg.csg.intersect(right_side, aperture)
+    # perform csg to get the final lens, an infinite radius leaves a planar window
+    r = np.abs(r)
+    if np.isfinite(r):
+        right_side = cg.Sphere(r, material=kwargs.get("material"))
+        lens = cg.csg.intersect(right_side.move_z(-(r - thickness / 2)), lens)
 
     # now we need to rotate the lens so it's orientated in the YZ plane
     return lens
-- 
2.43.0


From 461cf1962d12d4207c61600c5baa429d91d49adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:14 +0000
Subject: [PATCH 17/40] fix: location and thickness of plane mirrors

The faces of a plane mirror are documented to lie at -thickness and at 0. With a
thickness of zero and a rectangular aperture, no ray hit it.
---
 pyrayt/components.py      | 2 +-
 tinygfx/g3d/primitives.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index b8922c2..66015ea 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -260,7 +260,7 @@ def plane_mirror(thickness: float, **kwargs) -> cg.Intersectable:
     """
     off_axis = kwargs.get("off_axis")
     mirror = _create_aperture(kwargs.get("aperture"), thickness).move(
-        *off_axis, 0
+        *off_axis, -thickness / 2
     )  # move the mirror to it's off axis pt
     mirror.material = kwargs.get("material")
     return mirror
diff --git a/tinygfx/g3d/primitives.py b/tinygfx/g3d/primitives.py
index 69f886a..cb8133a 100644
--- a/tinygfx/g3d/primitives.py
+++ b/tinygfx/g3d/primitives.py
@@ -569,7 +569,7 @@ class Cube(SurfacePrimitive):
         )  # second hit is the min value of the maximums
 
         # if the min is larger than the max the ray missed the cube and should be replaced with inf
-        cube_hits = np.where(cube_hits[0] < cube_hits[1], cube_hits, np.inf)
+        cube_hits = np.where(cube_hits[0] <= cube_hits[1], cube_hits, np.inf)
 
         # return the cube hits
         return cube_hits
-- 
2.43.0


From 5547914104e45efdb9ce60ea117bb18857746eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:50 +0000
Subject: [PATCH 18/40] fix: shape of baffles

The side lengths of a rectangular baffle were swapped between the y and z axis,
and circular and elliptical baffles raised.
---
 pyrayt/components.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index 66015ea..e76982c 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -445,7 +445,24 @@ def baffle(aperture: Union[float, Tuple[float, float]]) -> cg.Intersectable:
     :return: a planar baffle centered at the origin, coplanar to the YZ Plane.
     """
 
-    return cg.XYPlane(aperture[0], aperture[1], material=matl.absorber).rotate_y(90)
+    return _create_baffle(aperture).rotate_y(90).rotate_x(90)
+
+
+def _create_baffle(aperture: Union[float, tuple]) -> cg.Intersectable:
+    """Helper function to create a baffle in the XY plane"""
+    if not hasattr(aperture, "__len__"):
+        width, length = aperture, aperture
+    else:
+        width, length = np.abs(aperture)
+    plane = cg.XYPlane(width, length, material=matl.absorber)
+
+    if hasattr(aperture, "__len__") and aperture[0] > 0 and aperture[1] > 0:
+        return plane
+
+    # anything but a rectangle is cut out of the plane
+    outline = _create_aperture(aperture, thickness=0.1)
+    outline.material = matl.absorber
+    return cg.csg.intersect(plane, outline)
 
 
 def aperture(
@@ -462,10 +479,11 @@ def aperture(
     :rtype: cg.Intersectable
     """
 
-    aperture_stop = baffle(size).rotate_y(-90)
+    aperture_stop = _create_baffle(size)
     aperture = _create_aperture(aperture_size, thickness=0.1)
+    aperture.material = matl.absorber
 
-    return cg.csg.difference(aperture_stop, aperture).rotate_y(90).rotate_x(-90)
+    return cg.csg.difference(aperture_stop, aperture).rotate_y(90).rotate_x(90)
 
 
 class Source(cg.WorldObject, abc.ABC):
-- 
2.43.0


From 635eeb909c20a7327cc09d90bf4fa5bb5a8d3b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:51 +0000
Subject: [PATCH 19/40] fix: spherical mirrors of infinite radius

They are documented to be plane mirrors, but had an undefined thickness and were
never hit.
---
 pyrayt/components.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index e76982c..fc1c558 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -299,7 +299,12 @@ def spherical_mirror(radius: float, thickness: float, **kwargs) -> cg.Intersecta
         # otherwise if it's circular it's just the radius
         dl = aperture / 2
 
-    aperture_front_thickness = abs(radius) - np.sqrt(radius ** 2 - (l + dl) ** 2)
+    # a plane mirror is cut out of an aperture of any front thickness
+    aperture_front_thickness = (
+        abs(radius) - np.sqrt(radius ** 2 - (l + dl) ** 2)
+        if np.isfinite(radius)
+        else 1.0
+    )
     total_thickness = (
         aperture_front_thickness + thickness
     )  # the total aperture thickness
@@ -310,8 +315,17 @@ def spherical_mirror(radius: float, thickness: float, **kwargs) -> cg.Intersecta
     aperture.material = matl.absorber
     aperture.move(*off_axis, 0)
 
+    # an infinite radius puts a plane in place of the curvature
+    if np.isinf(radius):
+        extent = 2 * (l + dl)
+        mirror_surface = cg.Cuboid(
+            (-extent, -extent, 0),
+            (extent, extent, np.sign(radius) * 2 * aperture_front_thickness),
+            material=material,
+        )
+        aperture.move_z(np.sign(radius) * (total_thickness / 2 - thickness))
     # a radius >0 puts the curvature on the right side of the lens
-    if radius > 0:
+    elif radius > 0:
         mirror_surface = cg.Sphere(radius, material=material).move_z(radius)
         aperture.move_z(total_thickness / 2 - thickness)
     elif radius < 0:
-- 
2.43.0


From 69642f5622443c5c7e9d70d4e96a858d0f246e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:52 +0000
Subject: [PATCH 20/40] fix: StaticLamp follows its position and wavelength

The rays were cached in world space, in a cache of ten entries for all lamps: a
lamp that was moved or had its wavelength changed kept emitting the old rays, the
eleventh lamp evicted the first, and a caller modifying the rays modified the
cache.
---
 pyrayt/components.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index fc1c558..034c49b 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -1,5 +1,4 @@
 import abc
-from functools import lru_cache
 from functools import wraps
 from typing import Union, Tuple
 
@@ -689,6 +688,14 @@ class Lamp(Source):
 class StaticLamp(Lamp):
     """Identical to a :class:`Lamp`, except the ray generation function is cached so the same set of rays is generated across multiple simulations. Useful for running Monte-Carlo models where the random noise of the source is larger than the resolution you're trying to capture at."""
 
-    @lru_cache(10)
-    def generate_rays(self, n_rays: int) -> pyrayt.RaySet:
-        return super().generate_rays(n_rays)
+    def __init__(self, *args, **kwargs) -> None:
+        super().__init__(*args, **kwargs)
+        self._cached_rays = {}
+
+    def _local_ray_generation(self, n_rays: int) -> pyrayt.RaySet:
+        # only the random part is cached, and never handed out itself
+        if n_rays not in self._cached_rays:
+            self._cached_rays[n_rays] = super()._local_ray_generation(n_rays)
+        ray_set = self._cached_rays[n_rays].copy()
+        ray_set.wavelength = self._wavelength
+        return ray_set
-- 
2.43.0


From 8511ceb440c0e9853b1e68947424213d53391c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:54 +0000
Subject: [PATCH 21/40] fix: reject a scale of zero before the object is
 modified

The transform became singular, and raised after it had replaced the transform of
the object.
---
 tinygfx/g3d/world_objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tinygfx/g3d/world_objects.py b/tinygfx/g3d/world_objects.py
index 7519f69..651e331 100644
--- a/tinygfx/g3d/world_objects.py
+++ b/tinygfx/g3d/world_objects.py
@@ -215,8 +215,8 @@ class WorldObject(CountedObject):
     # Scale operations
     def scale(self, x=1, y=1, z=1):
         # for now we're only going to allow positive scaling
-        if x < 0 or y < 0 or z < 0:
-            raise ValueError("Negative values for scale operations are prohibited")
+        if x <= 0 or y <= 0 or z <= 0:
+            raise ValueError("Scale operations are limited to positive values")
 
         tx = np.diag((x, y, z, 1))
         self._append_world_transform(tx)
-- 
2.43.0


From 832a77aefe37958fb94378512157129472f9eab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:55 +0000
Subject: [PATCH 22/40] fix: wavelength_to_rgb accepts a single wavelength, as
 documented

---
 pyrayt/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyrayt/utils.py b/pyrayt/utils.py
index 4371ac8..54157ea 100644
--- a/pyrayt/utils.py
+++ b/pyrayt/utils.py
@@ -13,7 +13,9 @@ def wavelength_to_rgb(wavelength: Tuple[float, np.ndarray], gamma=0.8) -> np.nda
     :rtype: np.ndarray
     """
 
-    wavelength = np.asarray(wavelength)  # convert the wavelength into a numpy array
+    single_value = np.ndim(wavelength) == 0
+    # convert the wavelength into a numpy array
+    wavelength = np.atleast_1d(np.asarray(wavelength))
     color = np.empty((3, wavelength.shape[0]))  # an empty matrix to generate color
 
     # calculate the color for 380 -> 440 nm
@@ -99,7 +101,7 @@ def wavelength_to_rgb(wavelength: Tuple[float, np.ndarray], gamma=0.8) -> np.nda
         wavelength >= zone_min, zone, color
     )  # fill the color array at the appropriate spots
 
-    return color.T
+    return color.T[0] if single_value else color.T
 
 
 def lensmakers_equation(r1: float, r2: float, n_lens: float, thickness: float) -> float:
-- 
2.43.0


From 18b077bfaf21235a7a980474bb16ad60f6640735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:56 +0000
Subject: [PATCH 23/40] fix: abbe number follows the coefficients of the glass

The cached value outlived changes to the coefficients.
---
 pyrayt/materials.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pyrayt/materials.py b/pyrayt/materials.py
index d63cef5..c1c9a6c 100644
--- a/pyrayt/materials.py
+++ b/pyrayt/materials.py
@@ -4,7 +4,6 @@ from pyrayt._pyrayt import RaySet
 from tinygfx.g3d import materials as cg_matl
 import tinygfx.g3d as cg
 import abc
-from functools import lru_cache
 
 
 class TracableMaterial(cg_matl.gooch.Material):
@@ -74,7 +73,6 @@ class Glass(TracableMaterial):
         )
         return ray_set
 
-    @lru_cache(100)
     def abbe(self) -> float:
         """
         Calculates the `Abbe number <https://en.wikipedia.org/wiki/Abbe_number>`_ of the material.
-- 
2.43.0


From 65913352f96652047e6a6a857900b0e30d5b51a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:34 +0000
Subject: [PATCH 24/40] fix: a rejected transform leaves the object as it was

The transform was replaced before it turned out that it cannot be inverted, which
left the object with a transform and an inverse that do not match.
---
 tinygfx/g3d/world_objects.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tinygfx/g3d/world_objects.py b/tinygfx/g3d/world_objects.py
index 651e331..3c52b91 100644
--- a/tinygfx/g3d/world_objects.py
+++ b/tinygfx/g3d/world_objects.py
@@ -124,11 +124,18 @@ class WorldObject(CountedObject):
         )
 
     def _append_world_transform(self, new_transform):
+        previous_transform = self._world_coordinate_transform
         self._world_coordinate_transform = np.matmul(
             new_transform, self._world_coordinate_transform
         )
-        # update the functions in the watch list
-        [fn() for fn in self.var_watchlist]
+        try:
+            # update the functions in the watch list
+            [fn() for fn in self.var_watchlist]
+        except (ValueError, np.linalg.LinAlgError):
+            # the transform cannot be inverted, leave the object as it was
+            self._world_coordinate_transform = previous_transform
+            [fn() for fn in self.var_watchlist]
+            raise
 
     def get_position(self):
         # check if the position is valid, if not update it and return
-- 
2.43.0


From cd4de25106b3f8eca756c9fa18507a22a12792eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:35 +0000
Subject: [PATCH 25/40] fix: EdgeRender.get_results returns the rendered image

It read an attribute that is never assigned and always raised.
---
 tinygfx/g3d/renderers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tinygfx/g3d/renderers.py b/tinygfx/g3d/renderers.py
index c623919..cd94415 100644
--- a/tinygfx/g3d/renderers.py
+++ b/tinygfx/g3d/renderers.py
@@ -58,7 +58,7 @@ class EdgeRender(object):
 
         :return: pandas dataframe
         """
-        return self._frame.data
+        return self._results
 
     def _st_initialize(self):
         self.reset()  # reset the renderer states/generation number
-- 
2.43.0


From 4ccb9a46d2519977c5b0593ab85172c85383dc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:36 +0000
Subject: [PATCH 26/40] fix: objects behind the camera are not rendered

The nearest hit was selected among the hits in front of the camera, but then read
from the unmasked array, so objects behind the camera were drawn and could hide
the ones in front of it. The views of draw() relied on that where the camera was
placed behind the surfaces.
---
 tinygfx/g3d/renderers.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/tinygfx/g3d/renderers.py b/tinygfx/g3d/renderers.py
index cd94415..e174073 100644
--- a/tinygfx/g3d/renderers.py
+++ b/tinygfx/g3d/renderers.py
@@ -78,9 +78,9 @@ class EdgeRender(object):
         ray_hit_index = np.arange(self._rays.shape[-1])
         for n, shape in enumerate(self._shapes):
             shape_hits, shape_surfaces = shape.intersect(self._rays)
-            nearest_hit_arg = np.argmin(
-                np.where(shape_hits > 0, shape_hits, np.inf), axis=0
-            )
+            # eliminate any hits behind the camera
+            shape_hits = np.where(shape_hits > 0, shape_hits, np.inf)
+            nearest_hit_arg = np.argmin(shape_hits, axis=0)
             nearest_hit = shape_hits[nearest_hit_arg, ray_hit_index]
             nearest_surface = shape_surfaces[nearest_hit_arg, ray_hit_index]
             new_minima = nearest_hit < hit_distances
@@ -194,9 +194,9 @@ class ShadedRenderer:
         ray_hit_index = np.arange(self._rays.shape[-1])
         for n, shape in enumerate(self._shapes):
             shape_hits, shape_surfaces = shape.intersect(self._rays)
-            nearest_hit_arg = np.argmin(
-                np.where(shape_hits > 0, shape_hits, np.inf), axis=0
-            )
+            # eliminate any hits behind the camera
+            shape_hits = np.where(shape_hits > 0, shape_hits, np.inf)
+            nearest_hit_arg = np.argmin(shape_hits, axis=0)
             nearest_hit = shape_hits[nearest_hit_arg, ray_hit_index]
             nearest_surface = shape_surfaces[nearest_hit_arg, ray_hit_index]
             new_minima = nearest_hit < hit_distances
@@ -284,7 +284,7 @@ def draw(
 
 def _draw_xy(surfaces: List[TracerSurface], axis, shaded, resolution, maxes, mins):
     camera_origin = (maxes + mins) / 2
-    camera_origin[2] = 1.5 * maxes[2]
+    camera_origin[2] = maxes[2] + 1  # above all surfaces, looking down
     h_span, v_span = 1.5 * (maxes[:2] - mins[:2])  # the camera spans
     resolution = resolution if h_span > v_span else int(resolution * h_span / v_span)
     # make the camera and move it into position
@@ -318,7 +318,7 @@ def _draw_xy(surfaces: List[TracerSurface], axis, shaded, resolution, maxes, min
 
 def _draw_xz(surfaces: List[TracerSurface], axis, shaded, resolution, maxes, mins):
     camera_origin = (maxes + mins) / 2
-    camera_origin[1] = 1.5 * maxes[1]
+    camera_origin[1] = mins[1] - 1  # in front of all surfaces, looking along +y
     h_span, v_span = 1.5 * (maxes[[0, 2]] - mins[[0, 2]])  # the camera spans
     resolution = resolution if h_span > v_span else int(resolution * h_span / v_span)
     # make the camera and move it into position
-- 
2.43.0


From 3a91e9422cc40cd2d2b6b266843395d5433af377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:37 +0000
Subject: [PATCH 27/40] fix: gooch shading with several lights

---
 tinygfx/g3d/materials/gooch.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/tinygfx/g3d/materials/gooch.py b/tinygfx/g3d/materials/gooch.py
index 2b03e64..e4bb3af 100644
--- a/tinygfx/g3d/materials/gooch.py
+++ b/tinygfx/g3d/materials/gooch.py
@@ -46,12 +46,10 @@ class GoochMaterial(Material):
             ]
 
         else:
-            light_vectors = light_positions[:3, :, np.newaxis] - np.tile(
-                rays[0, :3], (light_positions.shape[-1], 1, 1)
-            )
+            light_vectors = light_positions[:3].T[:, :, np.newaxis] - rays[0, :3]
 
         # normalize the light vector
-        light_vectors /= np.linalg.norm(light_vectors, axis=1)
+        light_vectors /= np.linalg.norm(light_vectors, axis=1, keepdims=True)
         # take the dot product of each slice of the light vectors with the normal vector
         light_normal_dot = np.einsum("ijk,jk->ik", light_vectors, normals)
 
-- 
2.43.0


From 24e6b388d118eeb405eb94742284afbbff8fc476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:19 +0000
Subject: [PATCH 28/40] fix: draw very slender and flat components

---
 tinygfx/g3d/renderers.py     | 16 ++++++++++++----
 tinygfx/g3d/world_objects.py |  2 +-
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/tinygfx/g3d/renderers.py b/tinygfx/g3d/renderers.py
index e174073..a310ca7 100644
--- a/tinygfx/g3d/renderers.py
+++ b/tinygfx/g3d/renderers.py
@@ -282,11 +282,18 @@ def draw(
         _draw_xz(surfaces, axis, shaded, resolution, maxes, mins)
 
 
+def _camera_spans(size: np.ndarray, resolution: int) -> np.ndarray:
+    """The spans of a camera showing surfaces of the given size, no side is thinner than a pixel of the longer one"""
+    spans = 1.5 * size
+    return np.maximum(spans, (np.max(spans) or 1.0) / resolution)
+
+
 def _draw_xy(surfaces: List[TracerSurface], axis, shaded, resolution, maxes, mins):
     camera_origin = (maxes + mins) / 2
     camera_origin[2] = maxes[2] + 1  # above all surfaces, looking down
-    h_span, v_span = 1.5 * (maxes[:2] - mins[:2])  # the camera spans
-    resolution = resolution if h_span > v_span else int(resolution * h_span / v_span)
+    h_span, v_span = _camera_spans(maxes[:2] - mins[:2], resolution)
+    if h_span <= v_span:
+        resolution = max(1, int(resolution * h_span / v_span))
     # make the camera and move it into position
     camera = OrthographicCamera(resolution, h_span, v_span / h_span)
     camera.rotate_y(90).rotate_z(90).move(*camera_origin[:3])
@@ -319,8 +326,9 @@ def _draw_xy(surfaces: List[TracerSurface], axis, shaded, resolution, maxes, min
 def _draw_xz(surfaces: List[TracerSurface], axis, shaded, resolution, maxes, mins):
     camera_origin = (maxes + mins) / 2
     camera_origin[1] = mins[1] - 1  # in front of all surfaces, looking along +y
-    h_span, v_span = 1.5 * (maxes[[0, 2]] - mins[[0, 2]])  # the camera spans
-    resolution = resolution if h_span > v_span else int(resolution * h_span / v_span)
+    h_span, v_span = _camera_spans(maxes[[0, 2]] - mins[[0, 2]], resolution)
+    if h_span <= v_span:
+        resolution = max(1, int(resolution * h_span / v_span))
     # make the camera and move it into position
     camera = OrthographicCamera(resolution, h_span, v_span / h_span)
     camera.rotate_z(90).move(*camera_origin[:3])
diff --git a/tinygfx/g3d/world_objects.py b/tinygfx/g3d/world_objects.py
index 3c52b91..1ee6155 100644
--- a/tinygfx/g3d/world_objects.py
+++ b/tinygfx/g3d/world_objects.py
@@ -518,7 +518,7 @@ class OrthographicCamera(WorldObject):
         self._h_pixels = h_pixel_count
         self._h_width = h_width
         self._v_width = aspect_ratio * h_width
-        self._v_pixels = int(aspect_ratio * self._h_pixels)
+        self._v_pixels = max(1, int(aspect_ratio * self._h_pixels))
 
     def get_resolution(self):
         return (self._h_pixels, self._v_pixels)
-- 
2.43.0


From 9b2901bb73acd5565b57ca593abdec814904f46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:36 +0000
Subject: [PATCH 29/40] fix: smallest_positive_root for small quadratic terms

---
 tinygfx/g3d/operations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tinygfx/g3d/operations.py b/tinygfx/g3d/operations.py
index 7097ba1..bdcd902 100644
--- a/tinygfx/g3d/operations.py
+++ b/tinygfx/g3d/operations.py
@@ -16,9 +16,9 @@ def smallest_positive_root(a, b, c):
     root = np.sqrt(
         np.maximum(0, disc)
     )  # the square root of the discriminant protected from being nan
-    polyroots = np.array(((-b + root), (-b - root))) / (
-        2 * a + np.isclose(a, 0)
-    )  # the positive element of the polynomial root
+    # add terms of the same sign only, so no digits cancel out when a is small
+    q = np.where(b >= 0, -b - root, -b + root) / 2
+    polyroots = np.array((q / (a + (a == 0)), np.where(q == 0, 0, c / (q + (q == 0)))))
 
     # want to keep the smallest hit that is positive, whichever of the two roots that is
     nearest_hit = np.amin(np.where(polyroots >= 0, polyroots, np.inf), axis=0)
-- 
2.43.0


From f93c12cf69114a226ce4e833afcdafb2b15b536a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:10 +0000
Subject: [PATCH 30/40] fix: rays were taken as parallel to the faces of
 enlarged primitives

---
 tinygfx/g3d/primitives.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/tinygfx/g3d/primitives.py b/tinygfx/g3d/primitives.py
index cb8133a..00f52f1 100644
--- a/tinygfx/g3d/primitives.py
+++ b/tinygfx/g3d/primitives.py
@@ -15,6 +15,18 @@ def _corners_to_cube_points(min_corner, max_corner):
     return corner_points
 
 
+def _is_parallel(directions, axis):
+    """
+    Finds the directions that have no component along an axis. Direction vectors in object space are as short or long as
+    the scale of the object makes them, so the component is compared to the length of its vector.
+
+    :param directions: a 3xn array of vectors
+    :param axis: the axis to check
+    :return: an array of booleans
+    """
+    return np.abs(directions[axis]) <= 1e-15 * np.linalg.norm(directions, axis=0)
+
+
 def bundle_of_rays(n_rays):
     """
     returns a 2x4xn_rays array of ray objects where rays[0] are 4xn_ray homogoneous points(0,0,0), and rays[1] are
@@ -352,7 +364,7 @@ class Paraboloid(SurfacePrimitive):
         # for linear cases, the second intersection should be +inf if the ray is traveling in the positive z direction
         # and -inf if the ray is travelling in the negative direction,
         linear_hits = np.empty((2, padded_rays.shape[-1]))
-        linear_hits[0] = -c / (b + np.isclose(b, 0))
+        linear_hits[0] = -c / (b + (b == 0))
         linear_hits[1] = np.where(directions[2] >= 0, np.inf, -np.inf)
 
         parabola_hits = np.where(linear_cases, linear_hits, parabola_hits)
@@ -363,7 +375,7 @@ class Paraboloid(SurfacePrimitive):
         # now we need to clip the parabola hits with two two planes that define the max and min of the height
 
         # make a variable to track if the ray travels parallel to the planes
-        parallel_to_plane = np.isclose(directions[2], 0)
+        parallel_to_plane = _is_parallel(directions, 2)
 
         # as well as track if the ray originates between the planes
         inside_bounds = np.logical_and(origins[2] >= 0, origins[2] <= self._height)
@@ -446,7 +458,7 @@ class Plane(SurfacePrimitive):
             (2, 2 * origins.shape[-1])
         )  # make an empty array for boundary hits
         for axis, dim in enumerate((self._width, self._length)):
-            is_zero = np.isclose(directions[axis], 0)
+            is_zero = _is_parallel(directions, axis)
             # need a special case if the position is skew to an axis, have to know if the point is in the projected
             # square
             skew_case_hit = np.where(np.abs(origins[axis]) <= dim / 2, -np.inf, np.inf)
@@ -472,7 +484,7 @@ class Plane(SurfacePrimitive):
 
         # next is to find the intersection with the actual plane
         plane_axis = 2  # the plane perpendicular to the z-axis
-        skew_ray = np.isclose(directions[plane_axis], 0)
+        skew_ray = _is_parallel(directions, plane_axis)
         plane_hits = -origins[plane_axis] / (directions[plane_axis] + skew_ray)
         plane_hits = np.where(skew_ray, np.inf, plane_hits)
 
@@ -524,7 +536,7 @@ class Cube(SurfacePrimitive):
 
         for axis in [0, 1, 2]:
             # if the vector does not travel in that direction they won't intersect
-            is_zero = np.isclose(directions[axis], 0)
+            is_zero = _is_parallel(directions, axis)
             # need a special case if the position is skew to an axis, have to know if the point is in teh projected
             # square
             skew_case_min = np.where(
@@ -674,7 +686,7 @@ class Cylinder(SurfacePrimitive):
         # now we need to clip the parabola hits with two two planes that define the max and min of the height
 
         # make a variable to track if the ray travels parallel to the planes
-        parallel_to_plane = np.isclose(directions[2], 0)
+        parallel_to_plane = _is_parallel(directions, 2)
 
         # as well as track if the ray originates between the planes
         inside_bounds = np.logical_and(
-- 
2.43.0


From bc89c23cbd297f2a3fc0859f95838b5e5e7ffd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:10 +0000
Subject: [PATCH 31/40] fix: normals of points near an edge or on thin or
 distant faces were those of another face

---
 tinygfx/g3d/primitives.py | 48 +++++++++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 14 deletions(-)

diff --git a/tinygfx/g3d/primitives.py b/tinygfx/g3d/primitives.py
index 00f52f1..e1a48d2 100644
--- a/tinygfx/g3d/primitives.py
+++ b/tinygfx/g3d/primitives.py
@@ -408,16 +408,20 @@ class Paraboloid(SurfacePrimitive):
         # normals are pretty simple and are of the form <-1,y/2f,x/2f>
         # create the normals array
         single_point = intersections.ndim == 1
-        normals = intersections.copy()
-        if single_point == 1:
-            normals = normals[..., np.newaxis]
+        points = intersections[..., np.newaxis] if single_point else intersections
+        normals = points.copy()
 
         normals[3] = 0  # wipe out the point setting
         normals[2] = -2 * self._focus
 
-        # if the intersection is with the cap the normal should be in the positive Z direction
+        # if the intersection is with the cap the normal should be in the positive Z direction. A point is on the cap if
+        # it is no closer to the curved surface
+        gradient = np.linalg.norm(normals, axis=0)
+        curve_distance = np.abs(
+            normals[0] ** 2 + normals[1] ** 2 + 2 * normals[2] * points[2]
+        ) / (2 * gradient)
         normals = np.where(
-            np.isclose(intersections[2], self._height),
+            np.abs(points[2] - self._height) <= curve_distance + 1e-12 * self._height,
             np.array([[0], [0], [1.0], [0]]),
             normals,
         )
@@ -596,12 +600,18 @@ class Cube(SurfacePrimitive):
         if single_point:
             intersections = intersections[..., np.newaxis]
 
-        padded_axes = np.vstack((self.axis_spans, (0, 0)))
-        negative_normals = np.isclose(intersections, padded_axes[:, 0, np.newaxis])
-        positive_normals = np.isclose(intersections, padded_axes[:, 1, np.newaxis])
-        normals = np.where(negative_normals, -1.0, 0)
-        normals = np.where(positive_normals, 1.0, normals)
-        normals[-1] = 0  # wipe out the point homogenous coordinate
+        # how far the points are away from the two faces of each axis
+        negative_distances = np.abs(intersections[:-1] - self.axis_spans[:, :1])
+        positive_distances = np.abs(intersections[:-1] - self.axis_spans[:, 1:])
+        distances = np.minimum(negative_distances, positive_distances)
+        # a point is on the face it is closest to, or on several faces if it's on an edge
+        on_face = distances <= np.min(distances, axis=0) + 1e-12 * np.max(
+            np.abs(self.axis_spans)
+        )
+        normals = np.zeros(intersections.shape)
+        normals[:-1] = np.where(
+            on_face, np.where(negative_distances < positive_distances, -1.0, 1.0), 0
+        )
         normals /= np.linalg.norm(normals, axis=0)
 
         # if a 1d array was passed, transpose it and strip a dimension
@@ -729,9 +739,19 @@ class Cylinder(SurfacePrimitive):
         normals[2:] = 0  # wipe out the z and w components
 
         if self._capped:
-            z_coord = intersections[2]
-            negative_normals = np.isclose(z_coord, self._h_min)
-            positive_normals = np.isclose(z_coord, self._h_max)
+            # a point is on a cap if it is no closer to the side
+            side_distance = np.abs(np.linalg.norm(normals, axis=0) - self._radius)
+            side_distance = side_distance + 1e-12 * max(
+                self._radius, abs(self._h_min), abs(self._h_max)
+            )
+            min_distance = np.abs(intersections[2] - self._h_min)
+            max_distance = np.abs(intersections[2] - self._h_max)
+            negative_normals = np.logical_and(
+                min_distance <= side_distance, min_distance < max_distance
+            )
+            positive_normals = np.logical_and(
+                max_distance <= side_distance, max_distance <= min_distance
+            )
             normals = np.where(
                 negative_normals, np.array([[0], [0], [-1], [0]]), normals
             )
-- 
2.43.0


From a63e1acc50c91681237f2ab94e385b697d258dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:05 +0000
Subject: [PATCH 32/40] fix: a static lamp used by several threads emits one
 pattern

---
 pyrayt/components.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index 034c49b..58ce08c 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -695,7 +695,8 @@ class StaticLamp(Lamp):
     def _local_ray_generation(self, n_rays: int) -> pyrayt.RaySet:
         # only the random part is cached, and never handed out itself
         if n_rays not in self._cached_rays:
-            self._cached_rays[n_rays] = super()._local_ray_generation(n_rays)
+            # another thread may have stored its rays in the meantime, the first ones stay
+            self._cached_rays.setdefault(n_rays, super()._local_ray_generation(n_rays))
         ray_set = self._cached_rays[n_rays].copy()
         ray_set.wavelength = self._wavelength
         return ray_set
-- 
2.43.0


From bc7c3e8bdfb424074f1fabba2cebb56898bc65c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:32 +0000
Subject: [PATCH 33/40] fix: get_position and get_orientation return copies

Writing to the returned array changed what the object answered afterwards.
---
 tinygfx/g3d/world_objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tinygfx/g3d/world_objects.py b/tinygfx/g3d/world_objects.py
index 1ee6155..7f17c1c 100644
--- a/tinygfx/g3d/world_objects.py
+++ b/tinygfx/g3d/world_objects.py
@@ -144,7 +144,7 @@ class WorldObject(CountedObject):
                 self._world_coordinate_transform, self._obj_origin
             )
             self._pos_valid = True
-        return self._world_origin
+        return self._world_origin.copy()
 
     def get_orientation(self):
         # check if we need to update the direction vector
@@ -158,7 +158,7 @@ class WorldObject(CountedObject):
             else:
                 self._world_direction = world_dir / norm
 
-        return self._world_direction
+        return self._world_direction.copy()
 
     def get_quaternion(self):
         # make a rotation object
-- 
2.43.0


From 6abae08fd7c1becdcb9990430907a6bb134b30ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:56 +0000
Subject: [PATCH 34/40] fix: keep components and sources that are given as
 iterators

The first walk through an iterator used it up: components given that way were never
met, and a second trace had no sources.
---
 pyrayt/_pyrayt.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyrayt/_pyrayt.py b/pyrayt/_pyrayt.py
index 6939ecb..7620f31 100644
--- a/pyrayt/_pyrayt.py
+++ b/pyrayt/_pyrayt.py
@@ -229,14 +229,17 @@ class RayTracer(object):
         if not hasattr(sources, "__iter__"):
             self._sources = (sources,)
         else:
-            self._sources = sources
+            # an iterator can only be walked through once, but every trace needs all of its elements
+            self._sources = tuple(sources) if iter(sources) is sources else sources
 
         if not hasattr(
             components, "__iter__"
         ):  # returns True if type of iterable - same problem with strings
             self._components = (components,)
         else:
-            self._components = components
+            self._components = (
+                tuple(components) if iter(components) is components else components
+            )
 
         self._rays_per_source = rays_per_source
         self._traced_rays_per_source = rays_per_source  # value the results were made with
@@ -310,7 +313,9 @@ class RayTracer(object):
         ):  # returns True if type of iterable - same problem with strings
             self._components = (components,)
         else:
-            self._components = components
+            self._components = (
+                tuple(components) if iter(components) is components else components
+            )
 
     def get_system(self):
         """
-- 
2.43.0


From 61d9fceb2ef1da6607d69da8a1afb78a88c4cfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:56 +0000
Subject: [PATCH 35/40] fix: shade shapes that were added after the renderer
 was made

Their pixels were left transparent, the surface table was made once in the constructor.
---
 tinygfx/g3d/renderers.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tinygfx/g3d/renderers.py b/tinygfx/g3d/renderers.py
index a310ca7..07b3106 100644
--- a/tinygfx/g3d/renderers.py
+++ b/tinygfx/g3d/renderers.py
@@ -147,10 +147,6 @@ class ShadedRenderer:
         self._shapes = shapes
         self._surface_lut = tuple()
 
-        # make a flattened list of all surface IDS
-        for shape in self._shapes:
-            self._surface_lut += shape.surface_ids
-
         self._state_machine = {
             self.States.INITIALIZE: self._st_initialize,
             self.States.PROPAGATE: self._st_propagate,
@@ -179,6 +175,11 @@ class ShadedRenderer:
     def _st_initialize(self):
         self.reset()  # reset the renderer states/generation number
 
+        # make a flattened list of all surface IDS
+        self._surface_lut = tuple()
+        for shape in self._shapes:
+            self._surface_lut += shape.surface_ids
+
         # Create an outgoing ray set from the camera
         self._rays = self._camera.generate_rays()
         self._state = (
-- 
2.43.0


From e0e17e3ee83089226c4c3c3fd86bf4f1b7933b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:19 +0000
Subject: [PATCH 36/40] fix: curved faces whose bounding height exceeds the
 radius keep their thickness

The height used for the depth of a face is an upper bound for elliptical and
off axis apertures. When the bound was larger than the radius of curvature
the thickness became nan, and no ray ever hit the lens or mirror, although
the aperture itself fits on the sphere.
---
 pyrayt/components.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index 58ce08c..76ea946 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -146,14 +146,19 @@ def _lens_full_thickness(r1, r2, thickness, aperture) -> Tuple[float, float]:
         # otherwise it's rectangular in which case the max height is the norm of the aperture
         max_height = np.linalg.norm(aperture) / 2
 
+    # the height is an upper bound for elliptical apertures, and a spherical face is never deeper than its radius
     # The left thickness is based on the radius of curvature, positive is concave, negative is convex
     left_thickness = thickness / 2
     if np.isfinite(r1) and r1 < 0:
-        left_thickness += np.abs(r1) - np.sqrt(np.abs(r1) ** 2 - max_height ** 2)
+        left_thickness += np.abs(r1) - np.sqrt(
+            max(np.abs(r1) ** 2 - max_height ** 2, 0)
+        )
 
     right_thickness = thickness / 2
     if np.isfinite(r2) and r2 > 0:
-        right_thickness += np.abs(r2) - np.sqrt(np.abs(r2) ** 2 - max_height ** 2)
+        right_thickness += np.abs(r2) - np.sqrt(
+            max(np.abs(r2) ** 2 - max_height ** 2, 0)
+        )
 
     center_shift = right_thickness - left_thickness
     total_thickness = right_thickness + left_thickness
@@ -298,9 +303,9 @@ def spherical_mirror(radius: float, thickness: float, **kwargs) -> cg.Intersecta
         # otherwise if it's circular it's just the radius
         dl = aperture / 2
 
-    # a plane mirror is cut out of an aperture of any front thickness
+    # a plane mirror is cut out of an aperture of any front thickness, a spherical one is never deeper than its radius
     aperture_front_thickness = (
-        abs(radius) - np.sqrt(radius ** 2 - (l + dl) ** 2)
+        abs(radius) - np.sqrt(max(radius ** 2 - (l + dl) ** 2, 0))
         if np.isfinite(radius)
         else 1.0
     )
-- 
2.43.0


From 12a7af4ac46de220f7df82f2ad4c2bf962c8da29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 37/40] fix: a surface reached through several components
 interacts once

An object listed twice, or listed next to a composite it is part of, was
found once per listing when rays interact, so its rays were moved on and
bent again and the recorded segment ended off the surface.
---
 pyrayt/_pyrayt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyrayt/_pyrayt.py b/pyrayt/_pyrayt.py
index 7620f31..89b3a2c 100644
--- a/pyrayt/_pyrayt.py
+++ b/pyrayt/_pyrayt.py
@@ -361,6 +361,8 @@ class RayTracer(object):
         self._surface_lut = tuple()
         for shape in self._components:
             self._surface_lut += shape.surface_ids
+        # a surface can be reached through several components, but only interacts with a ray once
+        self._surface_lut = tuple(dict(self._surface_lut).items())
 
         # make a ray set from the concatenated ray sets returned by the sources
         self._traced_rays_per_source = self._rays_per_source
-- 
2.43.0


From ea4625ba186c6bb9885a56fa4cee87a7716284e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:04 +0000
Subject: [PATCH 38/40] fix: lines almost parallel to the axis hit very large
 cylinders and paraboloids

A second order term was taken for zero below 1e-30, whatever the size of the object and the length of the direction in
object space. Lines that are parallel to the axis up to rounding missed cylinders of a radius above 5e6, and lines that
are slightly inclined missed bodies scaled up by more than 1e12.
---
 tinygfx/g3d/operations.py | 4 ++--
 tinygfx/g3d/primitives.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tinygfx/g3d/operations.py b/tinygfx/g3d/operations.py
index bdcd902..adcd6a7 100644
--- a/tinygfx/g3d/operations.py
+++ b/tinygfx/g3d/operations.py
@@ -40,8 +40,8 @@ def binomial_root(a, b, c, disc=None):
         b ** 2 - 4 * a * c if disc is None else disc
     )  # find the discriminant, or use the provided one
     # linear cases are where there's no expontential term, have to be handled separately
-    # a small exponential term (e.g. a ray almost parallel to the axis of a cylinder) is not a linear case
-    linear_cases = np.isclose(a, 0, atol=1e-30)
+    # however small it is, an exponential term (e.g. a ray almost parallel to the axis of a cylinder) is not a linear case
+    linear_cases = a == 0
     root = np.sqrt(
         np.maximum(0, disc)
     )  # the square root of the discriminant protected from being nan
diff --git a/tinygfx/g3d/primitives.py b/tinygfx/g3d/primitives.py
index e1a48d2..73dac45 100644
--- a/tinygfx/g3d/primitives.py
+++ b/tinygfx/g3d/primitives.py
@@ -355,7 +355,7 @@ class Paraboloid(SurfacePrimitive):
         # calculate the binomial roots of the function
         disc = b ** 2 - 4 * a * c  # the discriminant of the sqrt in the roots equation
         # linear cases are where there's no expontential term, have to be handled separately
-        linear_cases = np.isclose(a, 0, atol=1e-30)
+        linear_cases = a == 0
 
         # solve for the polynomial roots, which are infinite where there is no intersection
         parabola_hits = binomial_root(a, b, c, disc)
-- 
2.43.0


From 9ad4dd99458e7aad0872d18a5ac576534ea95a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:12 +0000
Subject: [PATCH 39/40] fix: linear equations with a small linear term had no
 root

---
 tinygfx/g3d/operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tinygfx/g3d/operations.py b/tinygfx/g3d/operations.py
index adcd6a7..187adab 100644
--- a/tinygfx/g3d/operations.py
+++ b/tinygfx/g3d/operations.py
@@ -66,7 +66,7 @@ def binomial_root(a, b, c, disc=None):
     # correct for cases that have neither a or b terms
     # if there's not a or b and the discriminant is positive, return +/-inf, otherwise just + inf
     # this is for cylinder intersections cases
-    c_terms_only = np.logical_and(linear_cases, np.isclose(b, 0))
+    c_terms_only = np.logical_and(linear_cases, b == 0)
     polyroots = np.where(c_terms_only, np.inf, polyroots)
     polyroots[0] = np.where(np.logical_and(c_terms_only, c <= 0), -np.inf, polyroots[0])
 
-- 
2.43.0


From 14843e8f8b81742580ece66fc1608f888b67fb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:52 +0000
Subject: [PATCH 40/40] fix: a ray that was absorbed inside of a shape is no
 longer handed to the shape's material

An absorbed ray stays in the ray set for one more generation, without a direction. Shapes around it (paraboloids,
for example) reported intersections for it, and the materials of their surfaces were called with it.
---
 pyrayt/_pyrayt.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyrayt/_pyrayt.py b/pyrayt/_pyrayt.py
index 89b3a2c..16ca489 100644
--- a/pyrayt/_pyrayt.py
+++ b/pyrayt/_pyrayt.py
@@ -397,6 +397,10 @@ class RayTracer(object):
             hit_distances = np.where(new_minima, nearest_hit, hit_distances)
             hit_surfaces = np.where(new_minima, nearest_surface, hit_surfaces)
 
+        # a ray that was absorbed has no direction left and hits nothing, even if it ended inside of a shape
+        absorbed_rays = np.isclose(np.linalg.norm(self._ray_set.rays[1], axis=0), 0)
+        hit_surfaces = np.where(absorbed_rays, -1, hit_surfaces)
+
         # assign the hit distances and surfaces to an instance variable so they can be called in the next state
         self._hit_distances = hit_distances
         self._hit_surfaces = hit_surfaces
-- 
2.43.0

