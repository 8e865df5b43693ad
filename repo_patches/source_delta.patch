From fa614956f25fc36d43683df87bc37cc3554cbd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:39 +0000
Subject: [PATCH 01/22] fix: ground non point surfaces ignored the requested
 time index

---
 pvfactors/geometry/pvground.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvfactors/geometry/pvground.py b/pvfactors/geometry/pvground.py
index f336c2a..1890317 100644
--- a/pvfactors/geometry/pvground.py
+++ b/pvfactors/geometry/pvground.py
@@ -522,7 +522,7 @@ class TsGround(object):
         """
         list_surfaces = []
         for shadow_el in self.shadow_elements:
-            list_surfaces += shadow_el.non_point_surfaces_at(0)
+            list_surfaces += shadow_el.non_point_surfaces_at(idx)
         return list_surfaces
 
     def non_point_illum_surfaces_at(self, idx):
@@ -540,7 +540,7 @@ class TsGround(object):
         """
         list_surfaces = []
         for illum_el in self.illum_elements:
-            list_surfaces += illum_el.non_point_surfaces_at(0)
+            list_surfaces += illum_el.non_point_surfaces_at(idx)
         return list_surfaces
 
     def non_point_surfaces_at(self, idx):
-- 
2.43.0


From 25e2fa0bfb12ae860999d60077ca9331a43b7cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:45 +0000
Subject: [PATCH 02/22] fix: building the AOI view factor matrix overwrote the
 view factor matrix

---
 pvfactors/viewfactors/calculator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvfactors/viewfactors/calculator.py b/pvfactors/viewfactors/calculator.py
index aa8e844..59e5048 100644
--- a/pvfactors/viewfactors/calculator.py
+++ b/pvfactors/viewfactors/calculator.py
@@ -153,7 +153,7 @@ class VFCalculator(object):
         n_ts_surfaces = pvarray.n_ts_surfaces
         vf_aoi_matrix = np.zeros(
             (n_ts_surfaces + 1, n_ts_surfaces + 1, n_steps),
-            dtype=float) if self.vf_matrix is None else self.vf_matrix
+            dtype=float) if self.vf_matrix is None else self.vf_matrix.copy()
 
         # Get timeseries objects
         ts_ground = pvarray.ts_ground
-- 
2.43.0


From 9b4f42f6a9a1f339150191bf2046a4e5aa6f7707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:52 +0000
Subject: [PATCH 03/22] fix: merging surfaces of a downward slope gave a line
 across the slope

---
 pvfactors/geometry/base.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pvfactors/geometry/base.py b/pvfactors/geometry/base.py
index 4cc7d1d..56e34b4 100644
--- a/pvfactors/geometry/base.py
+++ b/pvfactors/geometry/base.py
@@ -10,7 +10,6 @@ from pvfactors.geometry.utils import \
     is_collinear, check_collinear, are_2d_vecs_collinear, difference, contains
 from shapely.geometry import GeometryCollection, LineString
 from shapely.geometry.collection import geos_geometrycollection_from_py
-from shapely.ops import linemerge
 from pvlib.tools import cosd, sind
 
 
@@ -461,13 +460,18 @@ class ShadeCollection(GeometryCollection):
 
     def merge_surfaces(self):
         """Merge all surfaces in the shade collection into one contiguous
-        surface, even if they're not contiguous, by using bounds."""
+        surface, even if they're not contiguous, by using their extreme
+        points."""
         if len(self.list_surfaces) > 1:
-            merged_lines = linemerge(self.list_surfaces)
-            minx, miny, maxx, maxy = merged_lines.bounds
             surf_1 = self.list_surfaces[0]
+            # Find extreme points along the direction of the surfaces
+            coords = np.array([coord for surf in self.list_surfaces
+                               for coord in surf.coords])
+            u_vector = coords[1] - coords[0]
+            distances = coords.dot(u_vector)
             new_pvsurf = PVSurface(
-                coords=[(minx, miny), (maxx, maxy)],
+                coords=[coords[np.argmin(distances)],
+                        coords[np.argmax(distances)]],
                 shaded=self.shaded, normal_vector=surf_1.n_vector,
                 param_names=surf_1.param_names)
             self.list_surfaces = [new_pvsurf]
-- 
2.43.0


From 5259568ce4a54fb5f4e1f9b868a1d228ff376420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:59 +0000
Subject: [PATCH 04/22] fix: PV segments shared their default shade collections

---
 pvfactors/geometry/base.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pvfactors/geometry/base.py b/pvfactors/geometry/base.py
index 56e34b4..13451f8 100644
--- a/pvfactors/geometry/base.py
+++ b/pvfactors/geometry/base.py
@@ -613,8 +613,8 @@ class PVSegment(GeometryCollection):
     call basic geometrical methods and properties on it, eg call length, etc.
     """
 
-    def __init__(self, illum_collection=ShadeCollection(shaded=False),
-                 shaded_collection=ShadeCollection(shaded=True), index=None):
+    def __init__(self, illum_collection=None, shaded_collection=None,
+                 index=None):
         """Initialize PV segment.
 
         Parameters
@@ -630,6 +630,10 @@ class PVSegment(GeometryCollection):
         index : int, optional
             Index of the PV segment (Default = None)
         """
+        if illum_collection is None:
+            illum_collection = ShadeCollection(shaded=False)
+        if shaded_collection is None:
+            shaded_collection = ShadeCollection(shaded=True)
         assert shaded_collection.shaded, "surface should be shaded"
         assert not illum_collection.shaded, "surface should not be shaded"
         self._check_collinear(illum_collection, shaded_collection)
-- 
2.43.0


From a371168441cc27cb344f80d4a17c513fbfcc1989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:29 +0000
Subject: [PATCH 05/22] fix: lists of surfaces were stale after casting shadows
 or cutting

---
 pvfactors/geometry/base.py  | 18 ++++++------------
 pvfactors/geometry/pvrow.py |  7 +------
 2 files changed, 7 insertions(+), 18 deletions(-)

diff --git a/pvfactors/geometry/base.py b/pvfactors/geometry/base.py
index 13451f8..2dc83ee 100644
--- a/pvfactors/geometry/base.py
+++ b/pvfactors/geometry/base.py
@@ -640,7 +640,6 @@ class PVSegment(GeometryCollection):
         self._shaded_collection = shaded_collection
         self._illum_collection = illum_collection
         self.index = index
-        self._all_surfaces = None
         super(PVSegment, self).__init__([self._shaded_collection,
                                          self._illum_collection])
 
@@ -921,11 +920,8 @@ class PVSegment(GeometryCollection):
         list of :py:class:`~pvfactors.geometry.base.PVSurface`
             PV surfaces in the PV segment
         """
-        if self._all_surfaces is None:
-            self._all_surfaces = []
-            self._all_surfaces += self._illum_collection.list_surfaces
-            self._all_surfaces += self._shaded_collection.list_surfaces
-        return self._all_surfaces
+        return (self._illum_collection.list_surfaces
+                + self._shaded_collection.list_surfaces)
 
 
 class BaseSide(GeometryCollection):
@@ -943,7 +939,6 @@ class BaseSide(GeometryCollection):
         list_segments = [] if list_segments is None else list_segments
         check_collinear(list_segments)
         self.list_segments = tuple(list_segments)
-        self._all_surfaces = None
         super(BaseSide, self).__init__(list_segments)
 
     @classmethod
@@ -1016,11 +1011,10 @@ class BaseSide(GeometryCollection):
     @property
     def all_surfaces(self):
         """List of all surfaces in the Side object."""
-        if self._all_surfaces is None:
-            self._all_surfaces = []
-            for segment in self.list_segments:
-                self._all_surfaces += segment.all_surfaces
-        return self._all_surfaces
+        all_surfaces = []
+        for segment in self.list_segments:
+            all_surfaces += segment.all_surfaces
+        return all_surfaces
 
     @property
     def surface_indices(self):
diff --git a/pvfactors/geometry/pvrow.py b/pvfactors/geometry/pvrow.py
index 66fe966..2a61f4a 100644
--- a/pvfactors/geometry/pvrow.py
+++ b/pvfactors/geometry/pvrow.py
@@ -695,7 +695,6 @@ class PVRow(GeometryCollection):
         self.back = back_side
         self.index = index
         self.original_linestring = original_linestring
-        self._all_surfaces = None
         super(PVRow, self).__init__([self.front, self.back])
 
     @classmethod
@@ -832,11 +831,7 @@ class PVRow(GeometryCollection):
     @property
     def all_surfaces(self):
         """List of all the surfaces in the PV row."""
-        if self._all_surfaces is None:
-            self._all_surfaces = []
-            self._all_surfaces += self.front.all_surfaces
-            self._all_surfaces += self.back.all_surfaces
-        return self._all_surfaces
+        return self.front.all_surfaces + self.back.all_surfaces
 
     @property
     def surface_indices(self):
-- 
2.43.0


From 3e0e24f573b9b2def52d0995762be7d918cc9d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:36 +0000
Subject: [PATCH 06/22] fix: removing a longer line from a line left the line
 untouched

---
 pvfactors/geometry/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pvfactors/geometry/utils.py b/pvfactors/geometry/utils.py
index 8025768..3ccaf5c 100644
--- a/pvfactors/geometry/utils.py
+++ b/pvfactors/geometry/utils.py
@@ -67,6 +67,9 @@ def difference(u, v):
             return LineString([ub1, vb2])
         else:
             return u
+    elif v_contains_ub1 and v_contains_ub2:
+        # The whole of u lies strictly inside v
+        return LineString()
     else:
         return u
 
-- 
2.43.0


From 7f516f995a29a757d5d9de85d94a78c8862595f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 07/22] fix: casting a shadow over an already shaded area
 raised an error

---
 pvfactors/geometry/base.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pvfactors/geometry/base.py b/pvfactors/geometry/base.py
index 2dc83ee..724322d 100644
--- a/pvfactors/geometry/base.py
+++ b/pvfactors/geometry/base.py
@@ -709,12 +709,12 @@ class PVSegment(GeometryCollection):
                         .intersection(linestring))
         if not intersection.is_empty:
             # Split up only if interesects the illuminated collection
-            # print(intersection)
-            self._shaded_collection.add_linestring(intersection,
-                                                   normal_vector=self.n_vector)
-            # print(self._shaded_collection.length)
-            self._illum_collection.remove_linestring(intersection)
-            # print(self._illum_collection.length)
+            # The intersection has several parts when some areas inside of
+            # the shadow were already shaded
+            for line in getattr(intersection, 'geoms', [intersection]):
+                self._shaded_collection.add_linestring(
+                    line, normal_vector=self.n_vector)
+                self._illum_collection.remove_linestring(line)
             super(PVSegment, self).__init__([self._shaded_collection,
                                              self._illum_collection])
 
-- 
2.43.0


From 4ca2487d96c27a0cfc9a048940f563695eac6963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:52 +0000
Subject: [PATCH 08/22] fix: circumsolar luminance was undefined with the sun
 in the module plane

---
 pvfactors/irradiance/utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pvfactors/irradiance/utils.py b/pvfactors/irradiance/utils.py
index b25a582..edd8b4a 100644
--- a/pvfactors/irradiance/utils.py
+++ b/pvfactors/irradiance/utils.py
@@ -122,6 +122,12 @@ def perez_diffuse_luminance(timestamps, surface_tilt, surface_azimuth,
         columns=['luminance_horizon', 'luminance_circumsolar',
                  'luminance_isotropic']
     )
+    # The circumsolar component is 0 when the sun is in the plane of the
+    # surface, so the luminance cannot be derived from it
+    luminance['luminance_circumsolar'] = np.where(
+        (aoi_proj == 0) & (df_inputs.solar_zenith <= 90),
+        df_inputs.dhi - luminance['luminance_isotropic'],
+        luminance['luminance_circumsolar'])
     luminance.loc[components['sky_diffuse'] == 0, :] = 0.
 
     # Format components column names
-- 
2.43.0


From e60c76a2f90c4c4b9f6c9ebcd2450317305482ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:58 +0000
Subject: [PATCH 09/22] fix: endless recursion with the sun in the module plane

---
 pvfactors/irradiance/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pvfactors/irradiance/utils.py b/pvfactors/irradiance/utils.py
index edd8b4a..46a495f 100644
--- a/pvfactors/irradiance/utils.py
+++ b/pvfactors/irradiance/utils.py
@@ -67,6 +67,9 @@ def perez_diffuse_luminance(timestamps, surface_tilt, surface_azimuth,
     aoi_proj = irradiance.aoi_projection(
         df_inputs.surface_tilt, df_inputs.surface_azimuth,
         df_inputs.solar_zenith, df_inputs.solar_azimuth)
+    # With the sun in the plane of the surface, rounding errors could have it
+    # behind both sides of the surface
+    aoi_proj = aoi_proj.where(np.abs(aoi_proj) > 1e-10, 0.)
     sun_hitting_back_surface = ((aoi_proj < 0) &
                                 (df_inputs.solar_zenith <= 90))
     df_inputs_back_surface = df_inputs.loc[sun_hitting_back_surface].copy()
-- 
2.43.0


From 2628a26da8511f736d34c48be26f166f2b5fc1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:48 +0000
Subject: [PATCH 10/22] fix: fully shaded segments could not be cut

Shapely's distance to an empty geometry is 0, so an empty collection was
taken to contain every point.
---
 pvfactors/geometry/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pvfactors/geometry/utils.py b/pvfactors/geometry/utils.py
index 3ccaf5c..d3e8f29 100644
--- a/pvfactors/geometry/utils.py
+++ b/pvfactors/geometry/utils.py
@@ -76,7 +76,9 @@ def difference(u, v):
 
 def contains(linestring, point, tol_distance=DISTANCE_TOLERANCE):
     """Fixing floating point errors obtained in shapely for contains"""
-    return linestring.distance(point) < tol_distance
+    # Distances to empty geometries are 0 in shapely
+    return (not linestring.is_empty
+            and linestring.distance(point) < tol_distance)
 
 
 def is_collinear(list_elements):
-- 
2.43.0


From 93481ebd7437ca34c6eef88d944ecfded20cb005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:25 +0000
Subject: [PATCH 11/22] fix: series not indexed by the timestamps silently lost
 all diffuse light

The Perez model aligned the inputs on their pandas indices, while all other
calculations go by position.
---
 pvfactors/irradiance/utils.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pvfactors/irradiance/utils.py b/pvfactors/irradiance/utils.py
index 46a495f..32e2a7e 100644
--- a/pvfactors/irradiance/utils.py
+++ b/pvfactors/irradiance/utils.py
@@ -53,11 +53,14 @@ def perez_diffuse_luminance(timestamps, surface_tilt, surface_azimuth,
         'poa_isotropic', 'poa_circumsolar', 'poa_horizon', 'poa_total_diffuse']
 
     """
-    # Create a dataframe to help filtering on all arrays
+    # Create a dataframe to help filtering on all arrays: the inputs go together
+    # by position, so pandas must not align series on their indices
+    inputs = {'surface_tilt': surface_tilt, 'surface_azimuth': surface_azimuth,
+              'solar_zenith': solar_zenith, 'solar_azimuth': solar_azimuth,
+              'dni': dni, 'dhi': dhi}
     df_inputs = pd.DataFrame(
-        {'surface_tilt': surface_tilt, 'surface_azimuth': surface_azimuth,
-         'solar_zenith': solar_zenith, 'solar_azimuth': solar_azimuth,
-         'dni': dni, 'dhi': dhi},
+        {name: getattr(values, 'values', values)
+         for name, values in inputs.items()},
         index=pd.DatetimeIndex(timestamps))
 
     dni_et = irradiance.get_extra_radiation(df_inputs.index.dayofyear)
-- 
2.43.0


From 485b80b2ff40b2af68f9157290e90f306794a2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:11 +0000
Subject: [PATCH 12/22] fix: integer tilt angles of 0 put the ground on the
 wrong side of flat rows

---
 pvfactors/geometry/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvfactors/geometry/base.py b/pvfactors/geometry/base.py
index 724322d..6b0ccad 100644
--- a/pvfactors/geometry/base.py
+++ b/pvfactors/geometry/base.py
@@ -120,7 +120,8 @@ def _get_rotation_from_tilt_azimuth(surface_azimuth, axis_azimuth, tilt):
 
     # Calculate rotation of PV row (signed tilt angle)
     is_pointing_right = ((surface_azimuth - axis_azimuth) % 360.) > 180.
-    rotation = np.where(is_pointing_right, tilt, -tilt)
+    # (always floats, because integers cannot store the negative zero below)
+    rotation = np.where(is_pointing_right, tilt, -tilt).astype(float)
     rotation[tilt == 0] = -0.0  # GH 125
     return rotation
 
-- 
2.43.0


From 852620268caabe7521629fde57ea188ca74b0f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:59 +0000
Subject: [PATCH 13/22] fix: steps without irradiance had undefined diffuse
 light

---
 pvfactors/irradiance/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pvfactors/irradiance/utils.py b/pvfactors/irradiance/utils.py
index 32e2a7e..a89ee3e 100644
--- a/pvfactors/irradiance/utils.py
+++ b/pvfactors/irradiance/utils.py
@@ -99,6 +99,9 @@ def perez_diffuse_luminance(timestamps, surface_tilt, surface_azimuth,
                                   df_inputs.solar_azimuth,
                                   am,
                                   return_components=True)
+    # There is no diffuse light without any irradiance, but the sky clearness
+    # is then 0 / 0
+    components.loc[(df_inputs.dhi == 0) & (df_inputs.dni == 0), :] = 0.
 
     # Calculate Perez view factors:
     a = irradiance.aoi_projection(
-- 
2.43.0


From 2abd06be4774fe4a5e73e98911412a7cbceae8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:32 +0000
Subject: [PATCH 14/22] fix: black surfaces (albedo or module reflectivity of
 0) made every result NaN

The full mode inverted the diagonal of inverse reflectivities, so one surface
with a reflectivity of 0 (eg albedo series with zeros) gave NaN everywhere
at that step. Solve for the incident irradiance instead, which only
multiplies by reflectivities.
---
 pvfactors/engine.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pvfactors/engine.py b/pvfactors/engine.py
index 9d8b252..6fdf6d5 100644
--- a/pvfactors/engine.py
+++ b/pvfactors/engine.py
@@ -196,7 +196,7 @@ class PVEngine(object):
 
         # Get the irradiance modeling matrices
         # shape = n_surfaces + 1, n_timesteps
-        irradiance_mat, rho_mat, invrho_mat, _ = \
+        irradiance_mat, rho_mat, _, _ = \
             self.irradiance.get_full_ts_modeling_vectors(pvarray)
 
         # --- Calculate view factors
@@ -210,23 +210,23 @@ class PVEngine(object):
         # --- Solve mathematical problem
         # shape of system = n_timesteps, n_surfaces + 1, n_surfaces + 1
         shape_system = ts_vf_matrix_reshaped.shape
-        # Build 3d matrix of inverse reflectivities: diagonal for each ts
+        # Build 3d matrix of view factors weighted by the reflectivity of the
+        # emitting surfaces: never divide by reflectivities, since some
+        # surfaces can be black (eg albedo of 0)
         # shape = n_timesteps, n_surfaces + 1, n_surfaces + 1
-        invrho_ts_diag = np.zeros(shape_system)
-        for idx_surf in range(shape_system[1]):
-            invrho_ts_diag[:, idx_surf, idx_surf] = invrho_mat[idx_surf, :]
+        vf_rho_mat = ts_vf_matrix_reshaped * rho_mat.T[:, np.newaxis, :]
         # Subtract matrices: will rely on broadcasting
         # shape = n_timesteps, n_surfaces + 1, n_surfaces + 1
-        a_mat = invrho_ts_diag - ts_vf_matrix_reshaped
+        a_mat = np.eye(shape_system[1]) - vf_rho_mat
         # Calculate inverse, requires specific shape
         # shape = n_timesteps, n_surfaces + 1, n_surfaces + 1
         inv_a_mat = np.linalg.inv(a_mat)
-        # Use einstein sum to get final timeseries radiosities
+        # Use einstein sum to get final timeseries incident irradiance
         # shape = n_surfaces + 1, n_timesteps
-        q0 = np.einsum('ijk,ki->ji', inv_a_mat, irradiance_mat)
-        # Calculate incident irradiance: will rely on broadcasting
+        qinc = np.einsum('ijk,ki->ji', inv_a_mat, irradiance_mat)
+        # Calculate radiosities: will rely on broadcasting
         # shape = n_surfaces + 1, n_timesteps
-        qinc = np.einsum('ijk,ki->ji', invrho_ts_diag, q0)
+        q0 = rho_mat * qinc
 
         # --- Derive other irradiance terms
         # shape = n_surfaces, n_timesteps
-- 
2.43.0


From a48483f82c24184129974129dbd08a5a6347d9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:43 +0000
Subject: [PATCH 15/22] fix: view factors from upside-down flat rows to the
 ground were negative

With a tilt of 180 the two ends of the row surfaces are equally high, and the
one taken as the highest was the wrong one: crossed and uncrossed strings were
swapped. Row to ground view factors then were -1 instead of 1.
---
 pvfactors/viewfactors/vfmethods.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pvfactors/viewfactors/vfmethods.py b/pvfactors/viewfactors/vfmethods.py
index 5943454..21b801d 100644
--- a/pvfactors/viewfactors/vfmethods.py
+++ b/pvfactors/viewfactors/vfmethods.py
@@ -528,7 +528,9 @@ class VFTsMethods(object):
                                             shadow_is_left)
             d2 = self._hottel_string_length(low_pt_pv, right_pt_gnd, obstr_pt,
                                             shadow_is_left)
-        vf_1_to_2 = (d1 + d2 - l1 - l2) / (2. * width)
+        # Which end of a horizontal surface is the highest is arbitrary, and
+        # swapping the ends swaps crossed and uncrossed strings
+        vf_1_to_2 = np.abs(d1 + d2 - l1 - l2) / (2. * width)
         # The formula doesn't work if surface is a point
         vf_1_to_2 = np.where(width > DISTANCE_TOLERANCE, vf_1_to_2, 0.)
 
-- 
2.43.0


From 662fa57bcc9db65fcfed4e6f808f8c11e157afc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:43 +0000
Subject: [PATCH 16/22] fix: fast mode saw ground beyond its extent from rows
 tilted close to 180

The point where the plane of an edge row meets the ground was only limited on
one side of the ground, so the top of a row facing down saw the line between
the ground edge and that point.
---
 pvfactors/viewfactors/vfmethods.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pvfactors/viewfactors/vfmethods.py b/pvfactors/viewfactors/vfmethods.py
index 21b801d..67f0df4 100644
--- a/pvfactors/viewfactors/vfmethods.py
+++ b/pvfactors/viewfactors/vfmethods.py
@@ -360,12 +360,13 @@ class VFTsMethods(object):
         """
 
         pvrow_lowest_pt = ts_pvrows[pvrow_idx].full_pvrow_coords.lowest_point
+        # The cut point can be on either side of the ground extent
+        x_cut_point = np.clip(cut_point_coords.x, MIN_X_GROUND, MAX_X_GROUND)
         if pvrow_idx == 0:
             # There is no obstruction to view of the ground on the left
             coords_left_gnd = TsLineCoords(
                 TsPointCoords(MIN_X_GROUND * np.ones(n_steps), y_ground),
-                TsPointCoords(np.minimum(MAX_X_GROUND, cut_point_coords.x),
-                              y_ground))
+                TsPointCoords(x_cut_point, y_ground))
             vf_left_ground = self._vf_surface_to_surface(
                 pvrow_element_coords, coords_left_gnd, pvrow_element_length)
         else:
@@ -379,8 +380,7 @@ class VFTsMethods(object):
         if pvrow_idx == (n_pvrows - 1):
             # There is no obstruction of the view of the ground on the right
             coords_right_gnd = TsLineCoords(
-                TsPointCoords(np.maximum(MIN_X_GROUND, cut_point_coords.x),
-                              y_ground),
+                TsPointCoords(x_cut_point, y_ground),
                 TsPointCoords(MAX_X_GROUND * np.ones(n_steps), y_ground))
             vf_right_ground = self._vf_surface_to_surface(
                 pvrow_element_coords, coords_right_gnd, pvrow_element_length)
-- 
2.43.0


From 78d416790cf454a50ca3cc409f9604a5aee8fe72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:05 +0000
Subject: [PATCH 17/22] fix: no isotropic luminance with rows facing straight
 down

The Perez isotropic luminance was derived from the front side, which doesn't
see the sky dome with a tilt of 180: 0 / 0 made all results NaN.
---
 pvfactors/irradiance/utils.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pvfactors/irradiance/utils.py b/pvfactors/irradiance/utils.py
index a89ee3e..6cbba5a 100644
--- a/pvfactors/irradiance/utils.py
+++ b/pvfactors/irradiance/utils.py
@@ -152,6 +152,13 @@ def perez_diffuse_luminance(timestamps, surface_tilt, surface_azimuth,
     if df_inputs_back_surface.shape[0] > 0:
         df_inputs.loc[sun_hitting_back_surface, 'luminance_circumsolar'] = (
             df_inputs_back_surface.loc[:, 'luminance_circumsolar'])
+        # A surface facing straight down doesn't see the sky dome at all, so
+        # its luminance can only be derived from the other side
+        faces_down = df_inputs.vf_isotropic == 0
+        df_inputs.loc[sun_hitting_back_surface & faces_down,
+                      'luminance_isotropic'] = (
+            df_inputs_back_surface.luminance_isotropic.values[
+                faces_down[sun_hitting_back_surface].values])
 
     return df_inputs
 
-- 
2.43.0


From d1f654eb43a45f9ffa4b85bd9f3f5afc45655e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:34 +0000
Subject: [PATCH 18/22] fix: fast mode wrong for rows flat up to rounding, or
 upside-down flat

Tilts such as 1e-14 (eg from np.linspace) are lost in the row coordinates, so
the lowest end of rows facing left was the wrong one, and their neighbours
were taken as ground. Same for rows facing left with a tilt of 180. All flat
rows now use the same end ordering.
---
 pvfactors/config.py        | 2 ++
 pvfactors/geometry/base.py | 6 ++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pvfactors/config.py b/pvfactors/config.py
index f07b758..2c6233b 100644
--- a/pvfactors/config.py
+++ b/pvfactors/config.py
@@ -31,6 +31,8 @@ ALPHA_TEXT = 0.20
 # Tolerance and thresholds to use from experience getting errors with shapely
 DISTANCE_TOLERANCE = 1e-8
 THRESHOLD_DISTANCE_TOO_CLOSE = 1e-10
+# Tilts this close to flat [deg] cannot be resolved in the row coordinates
+FLAT_TILT_TOLERANCE = 1e-10
 
 
 # Gaussian shading default parameters: TOTAL_GAUSSIAN_AREA dependent on these
diff --git a/pvfactors/geometry/base.py b/pvfactors/geometry/base.py
index 6b0ccad..8f6d936 100644
--- a/pvfactors/geometry/base.py
+++ b/pvfactors/geometry/base.py
@@ -4,7 +4,7 @@ import numpy as np
 from pvfactors import PVFactorsError
 from pvfactors.config import (
     DEFAULT_NORMAL_VEC, COLOR_DIC, DISTANCE_TOLERANCE, PLOT_FONTSIZE,
-    ALPHA_TEXT, MAX_X_GROUND)
+    ALPHA_TEXT, MAX_X_GROUND, FLAT_TILT_TOLERANCE)
 from pvfactors.geometry.plot import plot_coords, plot_bounds, plot_line
 from pvfactors.geometry.utils import \
     is_collinear, check_collinear, are_2d_vecs_collinear, difference, contains
@@ -122,7 +122,9 @@ def _get_rotation_from_tilt_azimuth(surface_azimuth, axis_azimuth, tilt):
     is_pointing_right = ((surface_azimuth - axis_azimuth) % 360.) > 180.
     # (always floats, because integers cannot store the negative zero below)
     rotation = np.where(is_pointing_right, tilt, -tilt).astype(float)
-    rotation[tilt == 0] = -0.0  # GH 125
+    # Flat rows, up to rounding, have their ends ordered as if pointing right
+    rotation[np.abs(tilt) < FLAT_TILT_TOLERANCE] = -0.0  # GH 125
+    rotation[np.abs(tilt - 180.) < FLAT_TILT_TOLERANCE] = -180.
     return rotation
 
 
-- 
2.43.0


From 9a17536de86e135544c1e476056f24f9b8007b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:19 +0000
Subject: [PATCH 19/22] fix: circumsolar light on back surfaces too strong with
 the sun within 5 degrees of the horizon

---
 pvfactors/irradiance/models.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pvfactors/irradiance/models.py b/pvfactors/irradiance/models.py
index 904c44c..e4546cd 100644
--- a/pvfactors/irradiance/models.py
+++ b/pvfactors/irradiance/models.py
@@ -1005,8 +1005,9 @@ class HybridPerezOrdered(BaseModel):
         aoi_back_pvrow = 180. - aoi_front_pvrow
 
         # Will be used for back surface adjustments: from Perez model
-        # FIXME: pvlib clips the angle values to calculate vf -> adjust here
-        vf_circumsolar_backsurface = cosd(aoi_back_pvrow) / cosd(solar_zenith)
+        # (which limits the zenith angle to 85 deg, like for front surfaces)
+        vf_circumsolar_backsurface = (
+            cosd(aoi_back_pvrow) / np.maximum(cosd(solar_zenith), cosd(85)))
         poa_circumsolar_back = (luminance_circumsolar
                                 * vf_circumsolar_backsurface)
 
-- 
2.43.0


From 71bdeec6093126c8d87addb8b903469b850c047f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:37 +0000
Subject: [PATCH 20/22] fix: fast mode ignored light leaking onto shaded fronts
 with the isotropic sky

---
 pvfactors/irradiance/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvfactors/irradiance/models.py b/pvfactors/irradiance/models.py
index e4546cd..2c4e733 100644
--- a/pvfactors/irradiance/models.py
+++ b/pvfactors/irradiance/models.py
@@ -180,7 +180,8 @@ class IsotropicOrdered(BaseModel):
         self.total_perez['front_illum_pvrow'] = perez_front_pvrow['poa_global']
         self.total_perez['front_shaded_pvrow'] = (
             self.total_perez['front_illum_pvrow']
-            - self.direct['front_illum_pvrow'])
+            - self.direct['front_illum_pvrow']
+            + self.direct['front_shaded_pvrow'])
         self.total_perez['ground_shaded'] = (self.DHI
                                              + self.direct['ground_shaded'])
 
-- 
2.43.0


From be3a7cf336d3e316622b8bc10dfefb284b2ddd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:19 +0000
Subject: [PATCH 21/22] fix: shaded fronts could emit negative light in fast
 mode with the Perez sky

---
 pvfactors/irradiance/models.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pvfactors/irradiance/models.py b/pvfactors/irradiance/models.py
index 2c4e733..f5b1c13 100644
--- a/pvfactors/irradiance/models.py
+++ b/pvfactors/irradiance/models.py
@@ -609,10 +609,14 @@ class HybridPerezOrdered(BaseModel):
         self.horizon['back_pvrow'] = poa_horizon
         # perez
         self.total_perez['front_illum_pvrow'] = total_perez_front_pvrow
-        self.total_perez['front_shaded_pvrow'] = (
+        # Taking the Perez circumsolar out of the total POA irradiance can leave
+        # less than nothing with the sun close to the horizon
+        total_perez_front_no_sun = np.maximum(
             total_perez_front_pvrow
             - self.direct['front_illum_pvrow']
-            - self.circumsolar['front_illum_pvrow']
+            - self.circumsolar['front_illum_pvrow'], 0.)
+        self.total_perez['front_shaded_pvrow'] = (
+            total_perez_front_no_sun
             + self.direct['front_shaded_pvrow']
             + self.circumsolar['front_shaded_pvrow']
         )
-- 
2.43.0


From e512e836d8c234e2bf0fec005cdcf92d6ec7b559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:06 +0000
Subject: [PATCH 22/22] fix: absorbed sky light of almost flat edge rows lacked
 a strip above the horizon

The dummy sky surface beside an edge row ends where the ground ends. When that
point is behind the plane of the surface, its angle was mirrored to the front of
the surface, which took a strip out of the view of the sky.
---
 pvfactors/viewfactors/aoimethods.py | 31 +++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/pvfactors/viewfactors/aoimethods.py b/pvfactors/viewfactors/aoimethods.py
index 543fd69..71c5e79 100644
--- a/pvfactors/viewfactors/aoimethods.py
+++ b/pvfactors/viewfactors/aoimethods.py
@@ -314,6 +314,11 @@ class AOIMethods:
                                                       surf_2.b1)
             aoi_angles_2 = self._calculate_aoi_angles(u_vector, centroid,
                                                       surf_2.b2)
+            # The view of surface 1 ends at its own plane
+            aoi_angles_1 = self._limit_to_surface_plane(
+                aoi_angles_1, surf_1.n_vector, centroid, surf_2.b1)
+            aoi_angles_2 = self._limit_to_surface_plane(
+                aoi_angles_2, surf_1.n_vector, centroid, surf_2.b2)
             low_aoi_angles = np.where(aoi_angles_1 < aoi_angles_2, aoi_angles_1,
                                       aoi_angles_2)
             high_aoi_angles = np.where(aoi_angles_1 < aoi_angles_2, aoi_angles_2,
@@ -571,6 +576,32 @@ class AOIMethods:
         aoi_angles = np.rad2deg(np.arccos(cos_theta))
         return aoi_angles
 
+    @staticmethod
+    def _limit_to_surface_plane(aoi_angles, n_vector, centroid, point):
+        """Limit AOI angles to the plane of the surface when they come from
+        points located behind it.
+
+        Parameters
+        ----------
+        aoi_angles : np.ndarray
+            AOI angles measured against surface direction vector [degrees]
+        n_vector : np.ndarray
+            Normal vector of the surface
+        centroid : :py:class:`~pvfactors.geometry.timeseries.TsPointCoords`
+            Centroid point of the surface
+        point : :py:class:`~pvfactors.geometry.timeseries.TsPointCoords`
+            Point of remote surface that determines the AOI angle
+
+        Returns
+        -------
+        np.ndarray
+            AOI angles, equal to 0 or 180 for points behind surface [degrees]
+        """
+        is_behind = (n_vector[0, :] * (point.x - centroid.x)
+                     + n_vector[1, :] * (point.y - centroid.y)) < 0
+        return np.where(is_behind, np.where(aoi_angles < 90., 0., 180.),
+                        aoi_angles)
+
     @staticmethod
     def _vf(aoi_1, aoi_2):
         """Calculate view factor from infinitesimal surface to infinite band.
-- 
2.43.0

