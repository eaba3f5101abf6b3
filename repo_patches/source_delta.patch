From 74c72d663bb044001259cb2f725b5fcf75e8350c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:14 +0000
Subject: [PATCH 01/27] fix: apply the intensity threshold when dropping dead
 rays

np.logical_or takes two operands; the third was used as the output array,
so rays below the documented intensity threshold were never terminated.
---
 pyrayt/_pyrayt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrayt/_pyrayt.py b/pyrayt/_pyrayt.py
index 8005f85..2592aa3 100644
--- a/pyrayt/_pyrayt.py
+++ b/pyrayt/_pyrayt.py
@@ -414,8 +414,8 @@ class RayTracer(object):
         # (no intersection)
         absorbed_rays = np.isclose(np.linalg.norm(self._ray_set.rays[1], axis=0), 0)
         powerless_rays = self._ray_set.intensity < self.ray_intensity_threshold
-        dead_rays = np.logical_or(
-            absorbed_rays, self._hit_surfaces == -1, powerless_rays
+        dead_rays = np.logical_or.reduce(
+            (absorbed_rays, self._hit_surfaces == -1, powerless_rays)
         )
         living_rays = np.logical_not(dead_rays)  # living rays aren't dead...
         # increment the generation number
-- 
2.43.0


From 8393710abbdebe6e326121d9f1f22e780037ff56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:32 +0000
Subject: [PATCH 02/27] fix: trace the components that are currently loaded

The surface lookup was only built in the constructor, so after
load_components() (or editing the component list) rays hit the new surfaces
but never interacted with them.
---
 pyrayt/_pyrayt.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyrayt/_pyrayt.py b/pyrayt/_pyrayt.py
index 2592aa3..746b131 100644
--- a/pyrayt/_pyrayt.py
+++ b/pyrayt/_pyrayt.py
@@ -254,10 +254,7 @@ class RayTracer(object):
         self._ray_set = RaySet(0)
         self._next_ray_set = RaySet(0)
 
-        # make a flattened list of all surface IDS
         self._surface_lut = tuple()
-        for shape in self._components:
-            self._surface_lut += shape.surface_ids
 
     def reset(self):
         """
@@ -356,6 +353,11 @@ class RayTracer(object):
     def _st_initialize(self):
         self.reset()  # reset the renderer states/generation number
 
+        # make a flattened list of all surface IDS in the current system
+        self._surface_lut = tuple()
+        for shape in self._components:
+            self._surface_lut += shape.surface_ids
+
         # make a ray set from the concatenated ray sets returned by the sources
         self._ray_set = np.hstack(
             [source.generate_rays(self._rays_per_source) for source in self._sources]
-- 
2.43.0


From cd97b1e5cc29a9e22771efab5924e07552b641d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:35 +0000
Subject: [PATCH 03/27] fix: return the current components from get_system

It returned an attribute that is never set.
---
 pyrayt/_pyrayt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrayt/_pyrayt.py b/pyrayt/_pyrayt.py
index 746b131..1b9bdbf 100644
--- a/pyrayt/_pyrayt.py
+++ b/pyrayt/_pyrayt.py
@@ -321,7 +321,7 @@ class RayTracer(object):
         :return: List[tinygfx.g3d.world_objects.Intersectable]
         """
 
-        return self._system
+        return self._components
 
     def trace(self):
         self._state = RayTracer._States.INITIALIZE  # kick off the state machine
-- 
2.43.0


From 00b7c530bca866b2b2f9b23db8f3c715ffc57a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:38 +0000
Subject: [PATCH 04/27] fix: return the rendered image from
 EdgeRender.get_results

It read an attribute that is never set.
---
 tinygfx/g3d/renderers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tinygfx/g3d/renderers.py b/tinygfx/g3d/renderers.py
index c623919..cd94415 100644
--- a/tinygfx/g3d/renderers.py
+++ b/tinygfx/g3d/renderers.py
@@ -58,7 +58,7 @@ class EdgeRender(object):
 
         :return: pandas dataframe
         """
-        return self._frame.data
+        return self._results
 
     def _st_initialize(self):
         self.reset()  # reset the renderer states/generation number
-- 
2.43.0


From b3ccc97551785a5285dab32b34c65e348d498f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:38 +0000
Subject: [PATCH 05/27] fix: enclose both children in the bounding box of a
 disjoint union

Only the first span per axis was used, so rays crossing the second child of a
union of disjoint shapes were culled.
---
 tinygfx/g3d/csg.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tinygfx/g3d/csg.py b/tinygfx/g3d/csg.py
index 9dad29f..dd9c22a 100644
--- a/tinygfx/g3d/csg.py
+++ b/tinygfx/g3d/csg.py
@@ -107,7 +107,11 @@ class CSGSurface(Intersectable):
             #         (self._operation == Operation.INTERSECT and np.any(np.all(np.isinf(new_spans), axis=0))):
             #     raise ValueError(f"CSG Child Surfaces {self._l_child} and {self._r_child} no longer intersect")
 
-            local_aobb = primitives.Cube(*new_spans[:2])
+            # the box has to enclose every span, a union of disjoint children has two along some axis
+            max_corner = np.max(
+                np.where(np.isfinite(new_spans), new_spans, new_spans[0]), axis=0
+            )
+            local_aobb = primitives.Cube(new_spans[0], max_corner)
 
         else:
             # for a diff operation the bounding box must always be the bounding box of the left hand child
-- 
2.43.0


From 4ff843fb667c68447b09b61133b9fd6e35bdfe77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:41 +0000
Subject: [PATCH 06/27] fix: keep bounding boxes of nested CSG objects up to
 date

A child copied its parent's watch list when it was attached, before the parent
was attached to its own parent. Moving a grandchild (or an object whose right
child is itself a CSG object) therefore left the outer bounding box stale and
rays were culled.
---
 tinygfx/g3d/world_objects.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tinygfx/g3d/world_objects.py b/tinygfx/g3d/world_objects.py
index 94d4fd7..febd9ba 100644
--- a/tinygfx/g3d/world_objects.py
+++ b/tinygfx/g3d/world_objects.py
@@ -127,6 +127,9 @@ class WorldObject(CountedObject):
         self._world_coordinate_transform = np.matmul(
             new_transform, self._world_coordinate_transform
         )
+        self._run_watchlist()
+
+    def _run_watchlist(self):
         # update the functions in the watch list
         [fn() for fn in self.var_watchlist]
 
@@ -314,7 +317,8 @@ class Intersectable(WorldObject, abc.ABC):
 
     def attach_to(self, parent_object: WorldObject) -> None:
         self._parent = parent_object
-        self.var_watchlist += parent_object.var_watchlist
+        # the parent's watch list can grow later (e.g. when it's attached to its own parent), so don't copy it
+        self.var_watchlist.append(parent_object._run_watchlist)
 
     def invert_normals(self):
         self._normal_scale = -1
-- 
2.43.0


From 324783bd5e041c65a9999001c9a4cdc1a15158e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:44 +0000
Subject: [PATCH 07/27] fix: flip already inverted normals back in nested
 differences

In A - (B - C) the surface of C bounds the result from inside again, but
inverting twice left its normals inverted.
---
 tinygfx/g3d/world_objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tinygfx/g3d/world_objects.py b/tinygfx/g3d/world_objects.py
index febd9ba..475bff0 100644
--- a/tinygfx/g3d/world_objects.py
+++ b/tinygfx/g3d/world_objects.py
@@ -321,7 +321,7 @@ class Intersectable(WorldObject, abc.ABC):
         self.var_watchlist.append(parent_object._run_watchlist)
 
     def invert_normals(self):
-        self._normal_scale = -1
+        self._normal_scale = -self._normal_scale
 
     def reset_normals(self):
         self._normal_scale = 1
-- 
2.43.0


From ab243a85c849795c024c793421a46dc5d3da9a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:23 +0000
Subject: [PATCH 08/27] fix: create elliptical apertures

The branch overwrote the aperture sizes with the cylinder it made from them
and never returned it.
---
 pyrayt/components.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index e7d950d..569ea79 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -42,12 +42,11 @@ def _create_aperture(aperture: Union[float, tuple], thickness):
 
     elif aperture[0] < 0 and aperture[1] < 0:
         # if two values were passed it's elliptical
-        aperture = cg.Cylinder(
+        return cg.Cylinder(
             radius=np.abs(aperture[0]) / 2,
             min_height=-thickness / 2,
             max_height=thickness / 2,
-        )
-        aperture.scale_y(aperture[1] / aperture[0])
+        ).scale_y(aperture[1] / aperture[0])
 
     else:
         raise TypeError(f"Could not deduce an aperture from {aperture}")
-- 
2.43.0


From 578882200468d2f971a93395dd94141d3214a1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:27 +0000
Subject: [PATCH 09/27] fix: size parabolic mirrors with an elliptical aperture
 to the full aperture

Elliptical apertures are given as negative sizes, which shrank the furthest
point of the mirror instead of growing it.
---
 pyrayt/components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index 569ea79..9ad3da2 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -371,7 +371,7 @@ def parabolic_mirror(focus: float, thickness: float, **kwargs) -> cg.csg.Interse
     if hasattr(aperture, "__len__"):
         # if it's a rectangular aperture the dl is the norm of he rectangle
         furthest_point = np.linalg.norm(
-            np.abs(np.asarray(off_axis)) + np.asarray(aperture) / 2
+            np.abs(np.asarray(off_axis)) + np.abs(np.asarray(aperture)) / 2
         )
     else:
         # otherwise if it's circular it's just the radius
-- 
2.43.0


From 3c15a47eaadeefe24065dfe8c9d531c4565f36c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:30 +0000
Subject: [PATCH 10/27] fix: use each radius for its own surface in
 biconvex_lens

The two sphere radii were swapped but placed with the first radius, so lenses
with different radii did not have the documented surfaces or thickness.
---
 pyrayt/components.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index 9ad3da2..450220a 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -181,8 +181,8 @@ def biconvex_lens(r1: float, r2: float, thickness: float, **kwargs) -> cg.Inters
 
     # create an aperture from the aperture arguments
     aperture_shape = _create_aperture(kwargs.get("aperture"), thickness)
-    left_side = cg.Sphere(r2).move_z(r1 - thickness / 2)
-    right_side = cg.Sphere(r1).move_z(-(r1 - thickness / 2))
+    left_side = cg.Sphere(r1).move_z(r1 - thickness / 2)
+    right_side = cg.Sphere(r2).move_z(-(r2 - thickness / 2))
 
     # assign materials from the kwargs
     material = kwargs.get("material")
-- 
2.43.0


From 0fc4a79c8c3af2d05f33667db8eff45b8ca003aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:34 +0000
Subject: [PATCH 11/27] fix: accept negative and infinite radii in convex lens
 builders

As documented, a negative radius is treated as its absolute value and an
infinite radius makes that surface planar; before, the former produced an
empty or misplaced surface and the latter nan coordinates.
---
 pyrayt/components.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index 450220a..7842e40 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -181,17 +181,19 @@ def biconvex_lens(r1: float, r2: float, thickness: float, **kwargs) -> cg.Inters
 
     # create an aperture from the aperture arguments
     aperture_shape = _create_aperture(kwargs.get("aperture"), thickness)
-    left_side = cg.Sphere(r1).move_z(r1 - thickness / 2)
-    right_side = cg.Sphere(r2).move_z(-(r2 - thickness / 2))
-
     # assign materials from the kwargs
     material = kwargs.get("material")
     aperture_shape.material = material
-    left_side.material = material
-    right_side.material = material
 
-    # perform csg to get the final lens
-    lens = cg.csg.intersect(cg.csg.intersect(left_side, right_side), aperture_shape)
+    # perform csg to get the final lens, if a radius is infinite that side is the planar face of the aperture
+    r1, r2 = np.abs(r1), np.abs(r2)
+    lens = aperture_shape
+    if np.isfinite(r1):
+        left_side = cg.Sphere(r1, material=material).move_z(r1 - thickness / 2)
+        lens = cg.csg.intersect(left_side, lens)
+    if np.isfinite(r2):
+        right_side = cg.Sphere(r2, material=material).move_z(-(r2 - thickness / 2))
+        lens = cg.csg.intersect(right_side, lens)
 
     # now we need to rotate the lens so it's orientated in the YZ plane
     return lens
@@ -214,11 +216,16 @@ def plano_convex_lens(r: float, thickness: float, **kwargs) -> cg.csg.Intersecta
 
     # create an aperture from the aperture arguments
     aperture = _create_aperture(kwargs.get("aperture"), thickness)
-    right_side = cg.Sphere(r).move_z(-(r - thickness / 2))
-
     # assign materials from the kwargs
     material = kwargs.get("material")
     aperture.material = material
+
+    # an infinite radius is a planar window
+    r = np.abs(r)
+    if not np.isfinite(r):
+        return aperture
+
+    right_side = cg.Sphere(r).move_z(-(r - thickness / 2))
     right_side.material = material
 
     # perform csg to get the final lens
-- 
2.43.0


From ea0a6eb5723eb58083692270fb05defcaf562625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:10 +0000
Subject: [PATCH 12/27] fix: orient baffles like every other (y, z) aperture

The first dimension was laid along z and the second along y, contrary to the
documented aperture convention and to aperture().
---
 pyrayt/components.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index 7842e40..0f0d925 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -451,7 +451,11 @@ def baffle(aperture: Union[float, Tuple[float, float]]) -> cg.Intersectable:
     :return: a planar baffle centered at the origin, coplanar to the YZ Plane.
     """
 
-    return cg.XYPlane(aperture[0], aperture[1], material=matl.absorber).rotate_y(90)
+    return (
+        cg.XYPlane(aperture[0], aperture[1], material=matl.absorber)
+        .rotate_y(90)
+        .rotate_x(90)
+    )
 
 
 def aperture(
@@ -468,7 +472,7 @@ def aperture(
     :rtype: cg.Intersectable
     """
 
-    aperture_stop = baffle(size).rotate_y(-90)
+    aperture_stop = baffle(size).rotate_x(-90).rotate_y(-90)
     aperture = _create_aperture(aperture_size, thickness=0.1)
 
     return cg.csg.difference(aperture_stop, aperture).rotate_y(90).rotate_x(-90)
-- 
2.43.0


From fe4d0b2d776834b30d330ae0eccd33bb6fa53c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:14 +0000
Subject: [PATCH 13/27] fix: put the surfaces of plane_mirror at x=-thickness
 and x=0

The mirror was centered on the origin, contrary to its documentation and to
the other mirrors, whose reflecting surface passes through the origin.
---
 pyrayt/components.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index 0f0d925..5f4f2ec 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -266,8 +266,8 @@ def plane_mirror(thickness: float, **kwargs) -> cg.Intersectable:
     """
     off_axis = kwargs.get("off_axis")
     mirror = _create_aperture(kwargs.get("aperture"), thickness).move(
-        *off_axis, 0
-    )  # move the mirror to it's off axis pt
+        *off_axis, -thickness / 2
+    )  # move the mirror to it's off axis pt, with the front surface in the XY plane
     mirror.material = kwargs.get("material")
     return mirror
 
-- 
2.43.0


From 2003081334149c8c24face3026caefd158863e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:17 +0000
Subject: [PATCH 14/27] fix: distribute CircleOfRays uniformly

The first and last ray coincided at theta = 0 and 2*pi.
---
 pyrayt/components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index 5f4f2ec..dedede6 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -556,7 +556,7 @@ class CircleOfRays(Source):
 
         rayset = pyrayt.RaySet(n_rays)
         # if we want more than one ray, linearly space them, otherwise default position is fine
-        theta = np.linspace(0, 2 * np.pi, n_rays)
+        theta = np.linspace(0, 2 * np.pi, n_rays, endpoint=False)
         rayset.rays[0, 1] = (
             self._diameter / 2 * np.sin(theta)
         )  # space rays along the y-axis
-- 
2.43.0


From 766c52ef78389360073b53fcbca4a34ae90f34d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:21 +0000
Subject: [PATCH 15/27] fix: let StaticLamp follow its transform and wavelength

The world space rays were cached, so a lamp that was moved or changed
wavelength kept emitting its old rays, callers shared (and could modify) the
cached array, and the pattern was redrawn once ten others had been cached.
Keep only the random local rays, per lamp, and hand out copies.
---
 pyrayt/components.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index dedede6..557b44f 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -1,5 +1,4 @@
 import abc
-from functools import lru_cache
 from functools import wraps
 from typing import Union, Tuple
 
@@ -667,6 +666,15 @@ class Lamp(Source):
 class StaticLamp(Lamp):
     """Identical to a :class:`Lamp`, except the ray generation function is cached so the same set of rays is generated across multiple simulations. Useful for running Monte-Carlo models where the random noise of the source is larger than the resolution you're trying to capture at."""
 
-    @lru_cache(10)
-    def generate_rays(self, n_rays: int) -> pyrayt.RaySet:
-        return super().generate_rays(n_rays)
+    def __init__(self, *args, **kwargs) -> None:
+        super().__init__(*args, **kwargs)
+        self._cached_rays = {}  # the local rays generated for each ray count
+
+    def _local_ray_generation(self, n_rays: int) -> pyrayt.RaySet:
+        if n_rays not in self._cached_rays:
+            self._cached_rays[n_rays] = super()._local_ray_generation(n_rays)
+
+        # copy the cached rays since they are moved to world space in place
+        rayset = self._cached_rays[n_rays].copy()
+        rayset.wavelength = self._wavelength
+        return rayset
-- 
2.43.0


From b7255827e3bdd4c15d8f81b5860291430a231b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:50 +0000
Subject: [PATCH 16/27] fix: accept a single float in wavelength_to_rgb

As documented; it failed on the missing array dimension.
---
 pyrayt/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyrayt/utils.py b/pyrayt/utils.py
index 4371ac8..8a50bba 100644
--- a/pyrayt/utils.py
+++ b/pyrayt/utils.py
@@ -13,7 +13,8 @@ def wavelength_to_rgb(wavelength: Tuple[float, np.ndarray], gamma=0.8) -> np.nda
     :rtype: np.ndarray
     """
 
-    wavelength = np.asarray(wavelength)  # convert the wavelength into a numpy array
+    single_wavelength = np.ndim(wavelength) == 0
+    wavelength = np.atleast_1d(wavelength)  # convert the wavelength into a numpy array
     color = np.empty((3, wavelength.shape[0]))  # an empty matrix to generate color
 
     # calculate the color for 380 -> 440 nm
@@ -99,7 +100,7 @@ def wavelength_to_rgb(wavelength: Tuple[float, np.ndarray], gamma=0.8) -> np.nda
         wavelength >= zone_min, zone, color
     )  # fill the color array at the appropriate spots
 
-    return color.T
+    return color.T[0] if single_wavelength else color.T
 
 
 def lensmakers_equation(r1: float, r2: float, n_lens: float, thickness: float) -> float:
-- 
2.43.0


From 8438bf1a2fe1484207152b1dc76e60e1024308c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:05 +0000
Subject: [PATCH 17/27] fix: normalize light vectors per point when shading
 with several lights

Without keepdims the norms broadcast along the wrong axis: three lights gave
wrong colors and any other number above one failed.
---
 tinygfx/g3d/materials/gooch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tinygfx/g3d/materials/gooch.py b/tinygfx/g3d/materials/gooch.py
index 2b03e64..a37b91f 100644
--- a/tinygfx/g3d/materials/gooch.py
+++ b/tinygfx/g3d/materials/gooch.py
@@ -51,7 +51,7 @@ class GoochMaterial(Material):
             )
 
         # normalize the light vector
-        light_vectors /= np.linalg.norm(light_vectors, axis=1)
+        light_vectors /= np.linalg.norm(light_vectors, axis=1, keepdims=True)
         # take the dot product of each slice of the light vectors with the normal vector
         light_normal_dot = np.einsum("ijk,jk->ik", light_vectors, normals)
 
-- 
2.43.0


From c2df8bd206d3f042ed0bd0905b2a857e33bb5940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:51 +0000
Subject: [PATCH 18/27] fix: compute the light vectors of every light when
 shading with several lights

The light and coordinate axes were swapped, so two lights failed and three
lights gave wrong colors.
---
 tinygfx/g3d/materials/gooch.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tinygfx/g3d/materials/gooch.py b/tinygfx/g3d/materials/gooch.py
index a37b91f..cb75cf7 100644
--- a/tinygfx/g3d/materials/gooch.py
+++ b/tinygfx/g3d/materials/gooch.py
@@ -46,9 +46,8 @@ class GoochMaterial(Material):
             ]
 
         else:
-            light_vectors = light_positions[:3, :, np.newaxis] - np.tile(
-                rays[0, :3], (light_positions.shape[-1], 1, 1)
-            )
+            # one 3xn slice for each light
+            light_vectors = light_positions[:3].T[..., np.newaxis] - rays[0, :3]
 
         # normalize the light vector
         light_vectors /= np.linalg.norm(light_vectors, axis=1, keepdims=True)
-- 
2.43.0


From 4fedd56a6c4be9e5cc900234c9f544f882533958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:23 +0000
Subject: [PATCH 19/27] fix: size elliptical lenses and mirrors by their longer
 diameter

---
 pyrayt/components.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index 557b44f..faf5ec6 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -141,6 +141,10 @@ def _lens_full_thickness(r1, r2, thickness, aperture) -> Tuple[float, float]:
         # if the aperture is a single value (circular) the max height is the radius
         max_height = aperture / 2
 
+    elif aperture[0] < 0:
+        # if it's elliptical the max height is half of the longer diameter
+        max_height = np.max(np.abs(aperture)) / 2
+
     else:
         # otherwise it's rectangular in which case the max height is the norm of the aperture
         max_height = np.linalg.norm(aperture) / 2
@@ -298,8 +302,12 @@ def spherical_mirror(radius: float, thickness: float, **kwargs) -> cg.Intersecta
     # need to calculate aperture thickness based on the off-axis value
     l = np.sqrt(off_axis[0] ** 2 + off_axis[1] ** 2)
     if hasattr(aperture, "__len__"):
-        # if it's a rectangular aperture the dl is the norm of he rectangle
-        dl = np.linalg.norm(aperture) / 2
+        if aperture[0] < 0:
+            # if it's an elliptical aperture the dl is half of the longer diameter
+            dl = np.max(np.abs(aperture)) / 2
+        else:
+            # if it's a rectangular aperture the dl is the norm of he rectangle
+            dl = np.linalg.norm(aperture) / 2
     else:
         # otherwise if it's circular it's just the radius
         dl = aperture / 2
-- 
2.43.0


From 2382cedc8331ad5accee089ee14174d22b148355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:20 +0000
Subject: [PATCH 20/27] fix: let rays hit cuboids without thickness

---
 tinygfx/g3d/primitives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tinygfx/g3d/primitives.py b/tinygfx/g3d/primitives.py
index ef28092..16c0590 100644
--- a/tinygfx/g3d/primitives.py
+++ b/tinygfx/g3d/primitives.py
@@ -575,7 +575,7 @@ class Cube(SurfacePrimitive):
         )  # second hit is the min value of the maximums
 
         # if the min is larger than the max the ray missed the cube and should be replaced with inf
-        cube_hits = np.where(cube_hits[0] < cube_hits[1], cube_hits, np.inf)
+        cube_hits = np.where(cube_hits[0] <= cube_hits[1], cube_hits, np.inf)
 
         # return the cube hits
         return cube_hits
-- 
2.43.0


From 35da7778a1f390f3ec7f8052dd94744fd844cb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:24 +0000
Subject: [PATCH 21/27] fix: create circular and elliptical baffles

---
 pyrayt/components.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index faf5ec6..6c97bdd 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -458,11 +458,14 @@ def baffle(aperture: Union[float, Tuple[float, float]]) -> cg.Intersectable:
     :return: a planar baffle centered at the origin, coplanar to the YZ Plane.
     """
 
-    return (
-        cg.XYPlane(aperture[0], aperture[1], material=matl.absorber)
-        .rotate_y(90)
-        .rotate_x(90)
-    )
+    if hasattr(aperture, "__len__") and aperture[0] > 0 and aperture[1] > 0:
+        stop = cg.XYPlane(aperture[0], aperture[1], material=matl.absorber)
+    else:
+        # circular and elliptical baffles are disks without thickness
+        stop = _create_aperture(aperture, thickness=0)
+        stop.material = matl.absorber
+
+    return stop.rotate_y(90).rotate_x(90)
 
 
 def aperture(
-- 
2.43.0


From 5f5cbde3b1b34c3e68364631e3d080f291ba6f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:46 +0000
Subject: [PATCH 22/27] fix: create planar mirrors for spherical mirrors with
 an infinite radius

---
 pyrayt/components.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index 6c97bdd..6ea5872 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -312,7 +312,11 @@ def spherical_mirror(radius: float, thickness: float, **kwargs) -> cg.Intersecta
         # otherwise if it's circular it's just the radius
         dl = aperture / 2
 
-    aperture_front_thickness = abs(radius) - np.sqrt(radius ** 2 - (l + dl) ** 2)
+    if np.isfinite(radius):
+        aperture_front_thickness = abs(radius) - np.sqrt(radius ** 2 - (l + dl) ** 2)
+    else:
+        # any front thickness will do since the planar mirror surface cuts it off
+        aperture_front_thickness = thickness
     total_thickness = (
         aperture_front_thickness + thickness
     )  # the total aperture thickness
@@ -323,8 +327,16 @@ def spherical_mirror(radius: float, thickness: float, **kwargs) -> cg.Intersecta
     aperture.material = matl.absorber
     aperture.move(*off_axis, 0)
 
+    # an infinite radius is a planar mirror surface in front of the back thickness
+    if not np.isfinite(radius):
+        mirror_surface = cg.Cuboid(
+            (-2 * (l + dl), -2 * (l + dl), 0),
+            (2 * (l + dl), 2 * (l + dl), 2 * total_thickness),
+            material=material,
+        )
+        aperture.move_z(total_thickness / 2 - thickness)
     # a radius >0 puts the curvature on the right side of the lens
-    if radius > 0:
+    elif radius > 0:
         mirror_surface = cg.Sphere(radius, material=material).move_z(radius)
         aperture.move_z(total_thickness / 2 - thickness)
     elif radius < 0:
-- 
2.43.0


From 17037571437f9b1bc354aa63d161e1133747c687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 23/27] fix: sort hits stably so sheets keep both hits when
 combined

---
 tinygfx/g3d/csg.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tinygfx/g3d/csg.py b/tinygfx/g3d/csg.py
index dd9c22a..e5cec7f 100644
--- a/tinygfx/g3d/csg.py
+++ b/tinygfx/g3d/csg.py
@@ -28,13 +28,13 @@ def array_csg(
     if array1.ndim == 1:
         # if 1D arrays were passed, concatenate
         merged_array = np.concatenate((array1, array2))
-        merged_argsort = np.argsort(merged_array, axis=0)
+        merged_argsort = np.argsort(merged_array, axis=0, kind="stable")
         merged_array = merged_array[merged_argsort]
 
     else:
         # otherwise stack them where each column represents a unique ray's hits
         merged_array = np.vstack((array1, array2))
-        merged_argsort = np.argsort(merged_array, axis=0)
+        merged_argsort = np.argsort(merged_array, axis=0, kind="stable")
         merged_array = merged_array[merged_argsort, np.arange(merged_array.shape[-1])]
 
     if operation == Operation.UNION or operation == Operation.INTERSECT:
@@ -140,7 +140,9 @@ class CSGSurface(Intersectable):
 
         # build a mask to sort the surfaces
         csg_surfaces = np.vstack((l_surfaces, r_surfaces))
-        surface_sort_mask = np.argsort(np.vstack((l_hits, r_hits)), axis=0)
+        surface_sort_mask = np.argsort(
+            np.vstack((l_hits, r_hits)), axis=0, kind="stable"
+        )
         csg_surfaces = csg_surfaces[
             surface_sort_mask, np.arange(csg_surfaces.shape[-1])
         ]
@@ -148,7 +150,7 @@ class CSGSurface(Intersectable):
         csg_hits = array_csg(l_hits, r_hits, self._operation, sort_output=False)
 
         # sort the hits and the surface mask
-        hit_argsort = np.argsort(csg_hits, axis=0)
+        hit_argsort = np.argsort(csg_hits, axis=0, kind="stable")
         csg_surfaces = csg_surfaces[hit_argsort, np.arange(csg_surfaces.shape[-1])]
         csg_hits = csg_hits[hit_argsort, np.arange(csg_hits.shape[-1])]
 
-- 
2.43.0


From 7d8d0012383cba87a82e50232a754304ea0364ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:48 +0000
Subject: [PATCH 24/27] fix: look at drawn objects from outside wherever they
 are

draw() placed its camera at 1.5 times the upper bound, which lies inside or
behind objects on the other side of the origin, and for the xz view behind
the objects altogether.
---
 tinygfx/g3d/renderers.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tinygfx/g3d/renderers.py b/tinygfx/g3d/renderers.py
index cd94415..1526f5e 100644
--- a/tinygfx/g3d/renderers.py
+++ b/tinygfx/g3d/renderers.py
@@ -284,7 +284,9 @@ def draw(
 
 def _draw_xy(surfaces: List[TracerSurface], axis, shaded, resolution, maxes, mins):
     camera_origin = (maxes + mins) / 2
-    camera_origin[2] = 1.5 * maxes[2]
+    # look down from above everything that's drawn
+    depth = np.max(maxes[:3] - mins[:3])
+    camera_origin[2] = maxes[2] + depth
     h_span, v_span = 1.5 * (maxes[:2] - mins[:2])  # the camera spans
     resolution = resolution if h_span > v_span else int(resolution * h_span / v_span)
     # make the camera and move it into position
@@ -292,7 +294,7 @@ def _draw_xy(surfaces: List[TracerSurface], axis, shaded, resolution, maxes, min
     camera.rotate_y(90).rotate_z(90).move(*camera_origin[:3])
 
     light_position = Point(*maxes)
-    light_position[2] *= 3
+    light_position[2] += depth
 
     if shaded:
         renderer = ShadedRenderer(camera, surfaces, light_position=light_position)
@@ -318,7 +320,9 @@ def _draw_xy(surfaces: List[TracerSurface], axis, shaded, resolution, maxes, min
 
 def _draw_xz(surfaces: List[TracerSurface], axis, shaded, resolution, maxes, mins):
     camera_origin = (maxes + mins) / 2
-    camera_origin[1] = 1.5 * maxes[1]
+    # look along +y, from in front of everything that's drawn
+    depth = np.max(maxes[:3] - mins[:3])
+    camera_origin[1] = mins[1] - depth
     h_span, v_span = 1.5 * (maxes[[0, 2]] - mins[[0, 2]])  # the camera spans
     resolution = resolution if h_span > v_span else int(resolution * h_span / v_span)
     # make the camera and move it into position
@@ -326,7 +330,7 @@ def _draw_xz(surfaces: List[TracerSurface], axis, shaded, resolution, maxes, min
     camera.rotate_z(90).move(*camera_origin[:3])
 
     light_position = Point(*maxes)
-    light_position[1] *= -3
+    light_position[1] = mins[1] - depth
 
     if shaded:
         renderer = ShadedRenderer(camera, surfaces, light_position=light_position)
-- 
2.43.0


From 3153b2f07a5233511f1dadd1cfba369fa92d6983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:53 +0000
Subject: [PATCH 25/27] fix: do not render objects behind the camera

---
 tinygfx/g3d/renderers.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tinygfx/g3d/renderers.py b/tinygfx/g3d/renderers.py
index 1526f5e..ce76fa0 100644
--- a/tinygfx/g3d/renderers.py
+++ b/tinygfx/g3d/renderers.py
@@ -78,9 +78,9 @@ class EdgeRender(object):
         ray_hit_index = np.arange(self._rays.shape[-1])
         for n, shape in enumerate(self._shapes):
             shape_hits, shape_surfaces = shape.intersect(self._rays)
-            nearest_hit_arg = np.argmin(
-                np.where(shape_hits > 0, shape_hits, np.inf), axis=0
-            )
+            # only surfaces in front of the camera can be seen
+            shape_hits = np.where(shape_hits > 0, shape_hits, np.inf)
+            nearest_hit_arg = np.argmin(shape_hits, axis=0)
             nearest_hit = shape_hits[nearest_hit_arg, ray_hit_index]
             nearest_surface = shape_surfaces[nearest_hit_arg, ray_hit_index]
             new_minima = nearest_hit < hit_distances
@@ -194,9 +194,9 @@ class ShadedRenderer:
         ray_hit_index = np.arange(self._rays.shape[-1])
         for n, shape in enumerate(self._shapes):
             shape_hits, shape_surfaces = shape.intersect(self._rays)
-            nearest_hit_arg = np.argmin(
-                np.where(shape_hits > 0, shape_hits, np.inf), axis=0
-            )
+            # only surfaces in front of the camera can be seen
+            shape_hits = np.where(shape_hits > 0, shape_hits, np.inf)
+            nearest_hit_arg = np.argmin(shape_hits, axis=0)
             nearest_hit = shape_hits[nearest_hit_arg, ray_hit_index]
             nearest_surface = shape_surfaces[nearest_hit_arg, ray_hit_index]
             new_minima = nearest_hit < hit_distances
-- 
2.43.0


From e8f46d0297b0f69a730425d405e7917132edacd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:11 +0000
Subject: [PATCH 26/27] fix: draw scenes much longer than they are high instead
 of failing on a picture without rows

---
 tinygfx/g3d/renderers.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tinygfx/g3d/renderers.py b/tinygfx/g3d/renderers.py
index ce76fa0..f4214f4 100644
--- a/tinygfx/g3d/renderers.py
+++ b/tinygfx/g3d/renderers.py
@@ -282,12 +282,18 @@ def draw(
         _draw_xz(surfaces, axis, shaded, resolution, maxes, mins)
 
 
+def _camera_spans(widths, resolution):
+    # leave a margin around everything that's drawn, and give thin scenes enough room for a few pixels
+    spans = 1.5 * widths
+    return np.maximum(spans, 3.5 * np.max(spans) / resolution)
+
+
 def _draw_xy(surfaces: List[TracerSurface], axis, shaded, resolution, maxes, mins):
     camera_origin = (maxes + mins) / 2
     # look down from above everything that's drawn
     depth = np.max(maxes[:3] - mins[:3])
     camera_origin[2] = maxes[2] + depth
-    h_span, v_span = 1.5 * (maxes[:2] - mins[:2])  # the camera spans
+    h_span, v_span = _camera_spans(maxes[:2] - mins[:2], resolution)
     resolution = resolution if h_span > v_span else int(resolution * h_span / v_span)
     # make the camera and move it into position
     camera = OrthographicCamera(resolution, h_span, v_span / h_span)
@@ -323,7 +329,7 @@ def _draw_xz(surfaces: List[TracerSurface], axis, shaded, resolution, maxes, min
     # look along +y, from in front of everything that's drawn
     depth = np.max(maxes[:3] - mins[:3])
     camera_origin[1] = mins[1] - depth
-    h_span, v_span = 1.5 * (maxes[[0, 2]] - mins[[0, 2]])  # the camera spans
+    h_span, v_span = _camera_spans(maxes[[0, 2]] - mins[[0, 2]], resolution)
     resolution = resolution if h_span > v_span else int(resolution * h_span / v_span)
     # make the camera and move it into position
     camera = OrthographicCamera(resolution, h_span, v_span / h_span)
-- 
2.43.0


From e467867eb3a7654f02b7e6afb93e49b2f3549ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:48 +0000
Subject: [PATCH 27/27] fix: take source ids from the ray count the results
 were traced with

---
 pyrayt/_pyrayt.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyrayt/_pyrayt.py b/pyrayt/_pyrayt.py
index 1b9bdbf..337f92a 100644
--- a/pyrayt/_pyrayt.py
+++ b/pyrayt/_pyrayt.py
@@ -239,6 +239,7 @@ class RayTracer(object):
             self._components = components
 
         self._rays_per_source = rays_per_source
+        self._traced_rays_per_source = rays_per_source  # as it was for the results
         self._generation_limit = (
             generation_limit  # how many reflections/refractions a ray can encounter
         )
@@ -347,11 +348,12 @@ class RayTracer(object):
         """
         Calculates the Source ID for every ray in the dataframe, adding it as a column
         """
-        ids = (self._frame.data["id"] / self._rays_per_source).astype(int)
+        ids = (self._frame.data["id"] / self._traced_rays_per_source).astype(int)
         self._frame.data["source_id"] = ids
 
     def _st_initialize(self):
         self.reset()  # reset the renderer states/generation number
+        self._traced_rays_per_source = self._rays_per_source
 
         # make a flattened list of all surface IDS in the current system
         self._surface_lut = tuple()
@@ -487,8 +489,8 @@ class RayTracer(object):
             for n, this_color in enumerate(colors):
                 color = np.where(
                     np.logical_and(
-                        self._frame.data["id"] >= n * self._rays_per_source,
-                        self._frame.data["id"] < (n + 1) * self._rays_per_source,
+                        self._frame.data["id"] >= n * self._traced_rays_per_source,
+                        self._frame.data["id"] < (n + 1) * self._traced_rays_per_source,
                     ),
                     np.atleast_2d(this_color).T,
                     color,
-- 
2.43.0

