From f85e71145e4ce7a0977a3c3eaf54b1e14a977678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:44 +0000
Subject: [PATCH 01/54] fix: vertical cutting line spans the full height of the
 bounding box

---
 structuralcodes/geometry/_geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structuralcodes/geometry/_geometry.py b/structuralcodes/geometry/_geometry.py
index 6398b8a..7d6a817 100644
--- a/structuralcodes/geometry/_geometry.py
+++ b/structuralcodes/geometry/_geometry.py
@@ -364,7 +364,7 @@ def create_line_point_angle(
         # tg is almost zero
         ctg = v[0] / v[1]
         y1 = bbox[1] - 1e-3
-        y2 = bbox[2] + 1e-3
+        y2 = bbox[3] + 1e-3
         x1 = point[0] + (y1 - point[1]) * ctg
         x2 = point[0] + (y2 - point[1]) * ctg
     # create the line
-- 
2.43.0


From 0787df3ad00ca099d0439b0d873c94db9884f7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:44 +0000
Subject: [PATCH 02/54] fix: a CompoundGeometry made from a MultiPolygon knows
 if it is reinforced concrete

---
 structuralcodes/geometry/_geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structuralcodes/geometry/_geometry.py b/structuralcodes/geometry/_geometry.py
index 7d6a817..ea2cd00 100644
--- a/structuralcodes/geometry/_geometry.py
+++ b/structuralcodes/geometry/_geometry.py
@@ -749,6 +749,7 @@ class CompoundGeometry(Geometry):
                 to all polygons) or a list of materials. In this case the
                 number of polygons should match the number of materials.
         """
+        self._reinforced_concrete = None
         if isinstance(geometries, MultiPolygon):
             # a MultiPolygon is provided
             self.geometries = _process_geometries_multipolygon(
@@ -770,7 +771,6 @@ class CompoundGeometry(Geometry):
                 for pg in self.point_geometries
             ]
             self.geom = MultiPolygon(geoms_representation)
-        self._reinforced_concrete = None
 
     # we can add here static methods like
     # from_dxf
-- 
2.43.0


From 674d3b7a0ca75791192bf0a99c7a6cdfbb5b6508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 03/54] fix: Marin integrator accepts reinforcement groups with
 different numbers of bars

---
 .../sections/section_integrators/_marin_integrator.py  | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/structuralcodes/sections/section_integrators/_marin_integrator.py b/structuralcodes/sections/section_integrators/_marin_integrator.py
index 58e4d1d..6118886 100644
--- a/structuralcodes/sections/section_integrators/_marin_integrator.py
+++ b/structuralcodes/sections/section_integrators/_marin_integrator.py
@@ -223,9 +223,6 @@ class MarinIntegrator(SectionIntegrator):
             )
         # Now use the integration data (either just created or passed as
         # argument) to fill the input
-        y = []
-        z = []
-        IA = []
         for reinf_data in integration_data:
             # All have the same constitutive law
             strains = strain[0] + strain[1] * reinf_data[1]
@@ -236,11 +233,10 @@ class MarinIntegrator(SectionIntegrator):
                 integrand = reinf_data[3].get_tangent(strains)
             else:
                 raise ValueError(f'Unknown integrate type: {integrate}')
-            y.append(reinf_data[0])
-            z.append(reinf_data[1])
-            IA.append(integrand * reinf_data[2])
+            input.append(
+                (1, reinf_data[0], reinf_data[1], integrand * reinf_data[2])
+            )
 
-        input.append((1, np.array(y), np.array(z), np.array(IA)))
         return integration_data
 
     def prepare_input(
-- 
2.43.0


From ed3911efc1b5dc10cb25649385ccc4f36f9cba3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 04/54] fix: gross properties of a section made of disjoint
 surfaces

---
 structuralcodes/sections/_generic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 1e02035..c5f3c09 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -150,8 +150,8 @@ class GenericSectionCalculator(SectionCalculator):
             warnings.warn(
                 'Perimiter computation for a multi polygon is not defined.'
             )
-
-        gp.perimeter = polygon.exterior.length
+        else:
+            gp.perimeter = polygon.exterior.length
 
         # Computation of area: this is taken directly from shapely
         gp.area = self.section.geometry.area
-- 
2.43.0


From 5a94726220ab88c9fc87ac7c1f58750809452639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 05/54] fix: principal axis angle of a profile can be read
 first

---
 structuralcodes/geometry/profiles/_base_profile.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/structuralcodes/geometry/profiles/_base_profile.py b/structuralcodes/geometry/profiles/_base_profile.py
index e1816b2..c270182 100644
--- a/structuralcodes/geometry/profiles/_base_profile.py
+++ b/structuralcodes/geometry/profiles/_base_profile.py
@@ -27,6 +27,7 @@ class BaseProfile:
         self._Icsi: float = None
         self._Ieta: float = None
         self._Iyz: float = None
+        self._theta: float = None
         self._Wely: float = None
         self._Welz: float = None
         self._iy: float = None
-- 
2.43.0


From 2dbda8304d8fa69a4e498241151f71836f2bb33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 06/54] fix: principal axes are real and the angle is the one
 of the major axis

---
 structuralcodes/geometry/profiles/_base_profile.py | 14 +++++---------
 structuralcodes/sections/_generic.py               | 12 ++++++------
 2 files changed, 11 insertions(+), 15 deletions(-)

diff --git a/structuralcodes/geometry/profiles/_base_profile.py b/structuralcodes/geometry/profiles/_base_profile.py
index c270182..b9eeff8 100644
--- a/structuralcodes/geometry/profiles/_base_profile.py
+++ b/structuralcodes/geometry/profiles/_base_profile.py
@@ -118,16 +118,12 @@ class BaseProfile:
 
     def _find_principals_direction_and_moments(self):
         """Computes principal direction and second area moments."""
-        eigres = np.linalg.eig(
-            np.array([[self.Iy, self.Iyz], [self.Iyz, self.Iz]])
-        )
-        max_idx = np.argmax(eigres[0])
-        min_idx = 0 if max_idx == 1 else 1
-        self._Icsi = eigres[0][max_idx]
-        self._Ieta = eigres[0][min_idx]
-        self._theta = np.arccos(
-            np.dot(np.array([1, 0]), eigres[1][:, max_idx])
+        (self._Ieta, self._Icsi), axes = np.linalg.eigh(
+            np.array([[self.Iy, -self.Iyz], [-self.Iyz, self.Iz]])
         )
+        # Angle from the y-axis to the axis with the largest moment
+        v_y, v_z = axes[:, 1] * (1 if axes[0, 1] >= 0 else -1)
+        self._theta = np.copysign(np.arccos(min(v_y, 1.0)), v_z)
 
     @property
     def A(self) -> float:
diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index c5f3c09..a0e8322 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -279,12 +279,12 @@ class GenericSectionCalculator(SectionCalculator):
 
         # Compute principal axes of inertia and principal inertia
         def find_principal_axes_moments(iyy, izz, iyz):
-            eigres = np.linalg.eig(np.array([[iyy, iyz], [iyz, izz]]))
-            max_idx = np.argmax(eigres[0])
-            min_idx = 0 if max_idx == 1 else 1
-            i11 = eigres[0][max_idx]
-            i22 = eigres[0][min_idx]
-            theta = np.arccos(np.dot(np.array([1, 0]), eigres[1][:, max_idx]))
+            (i22, i11), axes = np.linalg.eigh(
+                np.array([[iyy, -iyz], [-iyz, izz]])
+            )
+            # Angle from the y-axis to the axis with the largest moment
+            v_y, v_z = axes[:, 1] * (1 if axes[0, 1] >= 0 else -1)
+            theta = np.copysign(np.arccos(min(v_y, 1.0)), v_z)
             return i11, i22, theta
 
         gp.i11, gp.i22, gp.theta = find_principal_axes_moments(
-- 
2.43.0


From 3139e4c73fd9edd4a9fb07e0dafcc367a16a61f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 07/54] fix: a failed calculation does not leave the
 integration data rotated

---
 structuralcodes/sections/_generic.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index a0e8322..26c48ee 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations  # To have clean hints of ArrayLike in docs
 
+import functools
 import math
 import typing as t
 import warnings
@@ -94,6 +95,23 @@ class GenericSection(Section):
         return self._gross_properties
 
 
+def _keep_integration_data(method):
+    """Put the integration data back if a calculation in a rotated reference
+    system fails, so that the following calculations are not affected.
+    """
+
+    @functools.wraps(method)
+    def wrapper(self, *args, **kwargs):
+        integration_data = self.integration_data
+        try:
+            return method(self, *args, **kwargs)
+        except Exception:
+            self.integration_data = integration_data
+            raise
+
+    return wrapper
+
+
 class GenericSectionCalculator(SectionCalculator):
     """Calculator class implementing analysis algorithms for code checks."""
 
@@ -731,6 +749,7 @@ class GenericSectionCalculator(SectionCalculator):
             return result[0]
         return result[:-1]
 
+    @_keep_integration_data
     def calculate_bending_strength(
         self, theta=0, n=0
     ) -> s_res.UltimateBendingMomentResults:
@@ -789,6 +808,7 @@ class GenericSectionCalculator(SectionCalculator):
 
         return res
 
+    @_keep_integration_data
     def calculate_moment_curvature(
         self,
         theta: float = 0.0,
-- 
2.43.0


From fa0dd1b927fa4b4e37822f105baf31e95bbf1951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:42 +0000
Subject: [PATCH 08/54] fix: the fibre mesh respects the mesh size for small
 and large areas

---
 .../sections/section_integrators/_fiber_integrator.py          | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/structuralcodes/sections/section_integrators/_fiber_integrator.py b/structuralcodes/sections/section_integrators/_fiber_integrator.py
index 6303e4e..c32147a 100644
--- a/structuralcodes/sections/section_integrators/_fiber_integrator.py
+++ b/structuralcodes/sections/section_integrators/_fiber_integrator.py
@@ -86,6 +86,9 @@ class FiberIntegrator(SectionIntegrator):
             tri = self.prepare_triangulation(g)
             # define the maximum area of the triangles
             max_area = g.area * mesh_size
+            # The switches are parsed by triangle, which does not understand
+            # the scientific notation of small or large numbers.
+            max_area = np.format_float_positional(max_area, trim='-')
             # triangulate the geometry getting back the mesh
             mesh = triangle.triangulate(tri, f'pq{30:.1f}Aa{max_area}o1')
             constitutive_law = g.material.constitutive_law
-- 
2.43.0


From 78d3e76112b0adf68b8f51cb05808330c368b5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 09/54] fix: every calculation meshes the section with the mesh
 size of the calculator

---
 structuralcodes/sections/_generic.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 26c48ee..2327e73 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -572,7 +572,10 @@ class GenericSectionCalculator(SectionCalculator):
             _,
             integration_data,
         ) = self.integrator.integrate_strain_response_on_geometry(
-            geom, [eps_0, curv, 0], integration_data=self.integration_data
+            geom,
+            [eps_0, curv, 0],
+            integration_data=self.integration_data,
+            mesh_size=self.mesh_size,
         )
         if self.integration_data is None and integration_data is not None:
             self.integration_data = integration_data
@@ -1399,6 +1402,7 @@ class GenericSectionCalculator(SectionCalculator):
                     geo=self.section.geometry,
                     strain=strain,
                     integration_data=self.integration_data,
+                    mesh_size=self.mesh_size,
                 )
             )
             if self.integration_data is None and integration_data is not None:
@@ -1487,6 +1491,7 @@ class GenericSectionCalculator(SectionCalculator):
                 [0, 0, 0],
                 integrate='modulus',
                 integration_data=self.integration_data,
+                mesh_size=self.mesh_size,
             )
         )
         # eventually save the triangulation data
-- 
2.43.0


From 492a77ca88187ef5dd21ae454eceb236b00a9df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 10/54] fix: moment-curvature results record the inclination of
 the neutral axis

---
 structuralcodes/sections/_generic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 2327e73..07fa53e 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -851,6 +851,7 @@ class GenericSectionCalculator(SectionCalculator):
 
         # Create an empty response object
         res = s_res.MomentCurvatureResults()
+        res.theta = theta
         res.n = n
         # Rotate the section of angle theta
         rotated_geom = self.section.geometry.rotate(-theta)
-- 
2.43.0


From ead140d3b72e867277e1cef25448a04ac4718b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 11/54] fix: moment-curvature results are not truncated for
 integer curvatures

---
 structuralcodes/sections/_generic.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 07fa53e..19397b2 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -906,11 +906,11 @@ class GenericSectionCalculator(SectionCalculator):
                 )
 
         # prepare results
-        eps_a = np.zeros_like(chi)
-        my = np.zeros_like(chi)
-        mz = np.zeros_like(chi)
-        chi_y = np.zeros_like(chi)
-        chi_z = np.zeros_like(chi)
+        eps_a = np.zeros_like(chi, dtype=float)
+        my = np.zeros_like(chi, dtype=float)
+        mz = np.zeros_like(chi, dtype=float)
+        chi_y = np.zeros_like(chi, dtype=float)
+        chi_z = np.zeros_like(chi, dtype=float)
         # Previous position of strain at (0,0)
         strain = [0, 0, 0]
         # For each value of curvature
-- 
2.43.0


From 62fd8fd2baadf25cadee8637572e49e538bb5c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 12/54] fix: the NMM domain has a field number for each of its
 points

---
 structuralcodes/sections/_generic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 19397b2..458bf34 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -1376,9 +1376,10 @@ class GenericSectionCalculator(SectionCalculator):
         thetas = np.linspace(0, np.pi * 2, num_theta)
         # Initialize an empty array with the correct shape
         strains = np.empty((0, 3))
+        field_num = np.empty(0, dtype=int)
         for theta in thetas:
             # Get ultimate strain profiles for theta angle
-            strain, field_num = self._compute_ultimate_strain_profiles(
+            strain, field = self._compute_ultimate_strain_profiles(
                 theta=theta,
                 num_1=num_1,
                 num_2=num_2,
@@ -1394,6 +1395,7 @@ class GenericSectionCalculator(SectionCalculator):
                 type_6=type_6,
             )
             strains = np.vstack((strains, strain))
+            field_num = np.append(field_num, field)
 
         # integrate all strain profiles
         forces = np.zeros_like(strains)
-- 
2.43.0


From 43b71cceaa44cbb6ed5228a28f23b53074ef2c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:49 +0000
Subject: [PATCH 13/54] fix: the fibre mesh leaves out holes whose centroid is
 not inside them

---
 .../sections/section_integrators/_fiber_integrator.py         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structuralcodes/sections/section_integrators/_fiber_integrator.py b/structuralcodes/sections/section_integrators/_fiber_integrator.py
index c32147a..7735451 100644
--- a/structuralcodes/sections/section_integrators/_fiber_integrator.py
+++ b/structuralcodes/sections/section_integrators/_fiber_integrator.py
@@ -48,8 +48,8 @@ class FiberIntegrator(SectionIntegrator):
             node_i = np.arange(n_vertices_int) + n_vertices
             node_j = np.roll(node_i, -1)
             segments_int = np.column_stack((node_i, node_j))
-            c = Polygon(interior)
-            holes.append([c.centroid.x, c.centroid.y])
+            c = Polygon(interior).representative_point()
+            holes.append([c.x, c.y])
             # Append to the global arrays
             vertices = np.vstack((vertices, vertices_int))
             segments = np.vstack((segments, segments_int))
-- 
2.43.0


From c597778d291d78f1c33193de6c66fa274ac269fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:25 +0000
Subject: [PATCH 14/54] fix: constitutive laws do not change the strains passed
 by the caller

---
 structuralcodes/core/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/structuralcodes/core/base.py b/structuralcodes/core/base.py
index 0940bc5..febe7d1 100644
--- a/structuralcodes/core/base.py
+++ b/structuralcodes/core/base.py
@@ -202,7 +202,8 @@ class ConstitutiveLaw(abc.ABC):
         """Preprocess strain arrays setting those strains sufficiently
         near to ultimate strain limits to exactly ultimate strain limit.
         """
-        eps = eps if np.isscalar(eps) else np.atleast_1d(eps)
+        # Copy the array, in order not to change the values of the caller
+        eps = eps if np.isscalar(eps) else np.array(eps, dtype=float, ndmin=1)
         eps_min, eps_max = self.get_ultimate_strain()
 
         if np.isscalar(eps):
-- 
2.43.0


From 1fcf49993e6a5167df70e38399751cf55ce5ae46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:25 +0000
Subject: [PATCH 15/54] fix: Marin coefficients do not change the strain
 profile passed by the caller

---
 .../constitutive_laws/_bilinearcompression.py          | 10 ++++++++--
 .../materials/constitutive_laws/_elasticplastic.py     | 10 ++++++++--
 .../materials/constitutive_laws/_parabolarectangle.py  | 10 ++++++++--
 .../materials/constitutive_laws/_userdefined.py        | 10 ++++++++--
 4 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/structuralcodes/materials/constitutive_laws/_bilinearcompression.py b/structuralcodes/materials/constitutive_laws/_bilinearcompression.py
index d6e4262..e4ab8ae 100644
--- a/structuralcodes/materials/constitutive_laws/_bilinearcompression.py
+++ b/structuralcodes/materials/constitutive_laws/_bilinearcompression.py
@@ -99,7 +99,10 @@ class BilinearCompression(ConstitutiveLaw):
         if strain[1] == 0:
             # Uniform strain equal to strain[0]
             # understand in which branch we are
-            strain[0] = self.preprocess_strains_with_limits(strain[0])
+            strain = (
+                self.preprocess_strains_with_limits(strain[0]),
+                strain[1],
+            )
             if strain[0] > 0:
                 # We are in tensile branch
                 strains = None
@@ -149,7 +152,10 @@ class BilinearCompression(ConstitutiveLaw):
         if strain[1] == 0:
             # Uniform strain equal to strain[0]
             # understand in which branch we are
-            strain[0] = self.preprocess_strains_with_limits(strain[0])
+            strain = (
+                self.preprocess_strains_with_limits(strain[0]),
+                strain[1],
+            )
             if strain[0] > 0:
                 # We are in tensile branch
                 strains = None
diff --git a/structuralcodes/materials/constitutive_laws/_elasticplastic.py b/structuralcodes/materials/constitutive_laws/_elasticplastic.py
index 84c5347..8efc8e7 100644
--- a/structuralcodes/materials/constitutive_laws/_elasticplastic.py
+++ b/structuralcodes/materials/constitutive_laws/_elasticplastic.py
@@ -120,7 +120,10 @@ class ElasticPlastic(ConstitutiveLaw):
         if strain[1] == 0:
             # Uniform strain equal to strain[0]
             # Understand in which branch are we
-            strain[0] = self.preprocess_strains_with_limits(strain[0])
+            strain = (
+                self.preprocess_strains_with_limits(strain[0]),
+                strain[1],
+            )
             if strain[0] > eps_sy_p and strain[0] <= eps_su_p:
                 # We are in the Hardening part positive
                 strains = None
@@ -181,7 +184,10 @@ class ElasticPlastic(ConstitutiveLaw):
         if strain[1] == 0:
             # Uniform strain equal to strain[0]
             # Understand in which branch are we
-            strain[0] = self.preprocess_strains_with_limits(strain[0])
+            strain = (
+                self.preprocess_strains_with_limits(strain[0]),
+                strain[1],
+            )
             if strain[0] > eps_sy_p and strain[0] <= eps_su_p:
                 # We are in the Hardening part positive
                 strains = None
diff --git a/structuralcodes/materials/constitutive_laws/_parabolarectangle.py b/structuralcodes/materials/constitutive_laws/_parabolarectangle.py
index bb255db..6ad498c 100644
--- a/structuralcodes/materials/constitutive_laws/_parabolarectangle.py
+++ b/structuralcodes/materials/constitutive_laws/_parabolarectangle.py
@@ -133,7 +133,10 @@ class ParabolaRectangle(ConstitutiveLaw):
         if strain[1] == 0:
             # Uniform strain equal to strain[0]
             # understand in which branch are we
-            strain[0] = self.preprocess_strains_with_limits(strain[0])
+            strain = (
+                self.preprocess_strains_with_limits(strain[0]),
+                strain[1],
+            )
             if strain[0] > 0:
                 # We are in tensile branch
                 strains = None
@@ -213,7 +216,10 @@ class ParabolaRectangle(ConstitutiveLaw):
         if strain[1] == 0:
             # Uniform strain equal to strain[0]
             # understand in which branch are we
-            strain[0] = self.preprocess_strains_with_limits(strain[0])
+            strain = (
+                self.preprocess_strains_with_limits(strain[0]),
+                strain[1],
+            )
             if strain[0] > 0:
                 # We are in tensile branch
                 strains = None
diff --git a/structuralcodes/materials/constitutive_laws/_userdefined.py b/structuralcodes/materials/constitutive_laws/_userdefined.py
index 78c1344..fc27554 100644
--- a/structuralcodes/materials/constitutive_laws/_userdefined.py
+++ b/structuralcodes/materials/constitutive_laws/_userdefined.py
@@ -153,7 +153,10 @@ class UserDefined(ConstitutiveLaw):
         if strain[1] == 0:
             # Uniform strain equal to strain[0]
             # understand in which branch are we
-            strain[0] = self.preprocess_strains_with_limits(strain[0])
+            strain = (
+                self.preprocess_strains_with_limits(strain[0]),
+                strain[1],
+            )
             found = False
             for i in range(len(self._x) - 1):
                 if self._x[i] <= strain[0] and self._x[i + 1] >= strain[0]:
@@ -201,7 +204,10 @@ class UserDefined(ConstitutiveLaw):
         if strain[1] == 0:
             # Uniform strain equal to strain[0]
             # understand in which branch are we
-            strain[0] = self.preprocess_strains_with_limits(strain[0])
+            strain = (
+                self.preprocess_strains_with_limits(strain[0]),
+                strain[1],
+            )
             found = False
             for i in range(len(self._x) - 1):
                 if self._x[i] <= strain[0] and self._x[i + 1] >= strain[0]:
-- 
2.43.0


From 4a55dc7652572a8fa92d73c3a744f0d26a091a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:02 +0000
Subject: [PATCH 16/54] fix: tangent of BilinearCompression is the same for
 scalars and arrays

---
 .../materials/constitutive_laws/_bilinearcompression.py       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structuralcodes/materials/constitutive_laws/_bilinearcompression.py b/structuralcodes/materials/constitutive_laws/_bilinearcompression.py
index e4ab8ae..d178aa7 100644
--- a/structuralcodes/materials/constitutive_laws/_bilinearcompression.py
+++ b/structuralcodes/materials/constitutive_laws/_bilinearcompression.py
@@ -75,8 +75,8 @@ class BilinearCompression(ConstitutiveLaw):
 
         # If it is an array
         tangent = np.ones_like(eps) * self._E
-        tangent[eps >= 0] = 0
-        tangent[eps < self._eps_c] = 0
+        tangent[eps > 0] = 0
+        tangent[eps <= self._eps_c] = 0
 
         return tangent
 
-- 
2.43.0


From ccc2ea7a4c7bb222ef9cd28f7dbcae297ab9a1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:50 +0000
Subject: [PATCH 17/54] fix: the Parallel law accepts integer strains

---
 structuralcodes/materials/constitutive_laws/_parallel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structuralcodes/materials/constitutive_laws/_parallel.py b/structuralcodes/materials/constitutive_laws/_parallel.py
index 32d4a8b..b037c94 100644
--- a/structuralcodes/materials/constitutive_laws/_parallel.py
+++ b/structuralcodes/materials/constitutive_laws/_parallel.py
@@ -74,7 +74,7 @@ class Parallel(ConstitutiveLaw):
     ) -> t.Union[float, ArrayLike]:
         """Return the stress given strain."""
         eps = eps if np.isscalar(eps) else np.atleast_1d(eps)
-        stress = 0 * eps  # This can be scalar or array
+        stress = 0.0 * eps  # This can be scalar or array
         for weight, law in zip(self._weights, self._wrapped_laws):
             stress += weight * law.get_stress(eps)
 
@@ -85,7 +85,7 @@ class Parallel(ConstitutiveLaw):
     ) -> t.Union[float, ArrayLike]:
         """Return the tangent for given strain."""
         eps = eps if np.isscalar(eps) else np.atleast_1d(eps)
-        tangent = 0 * eps  # This can be scalar or array
+        tangent = 0.0 * eps  # This can be scalar or array
         for weight, law in zip(self._weights, self._wrapped_laws):
             tangent += weight * law.get_tangent(eps)
         return tangent
-- 
2.43.0


From ff501233108e1a36a850e1d91c435814a1eab13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:25 +0000
Subject: [PATCH 18/54] fix: InitialStrain without strain compatibility is
 consistent for arrays and Marin coefficients

---
 .../materials/constitutive_laws/_initial_strain.py    | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/structuralcodes/materials/constitutive_laws/_initial_strain.py b/structuralcodes/materials/constitutive_laws/_initial_strain.py
index 076c227..8a2c4b8 100644
--- a/structuralcodes/materials/constitutive_laws/_initial_strain.py
+++ b/structuralcodes/materials/constitutive_laws/_initial_strain.py
@@ -69,6 +69,7 @@ class InitialStrain(ConstitutiveLaw):
         self, eps: t.Union[float, ArrayLike]
     ) -> t.Union[float, ArrayLike]:
         """Return the stress given strain."""
+        eps = eps if np.isscalar(eps) else np.atleast_1d(eps)
         stress = self._wrapped_law.get_stress(eps + self._initial_strain)
         if not self._strain_compatibility:
             # If strain compatibility is enforced, return initial stress
@@ -79,8 +80,10 @@ class InitialStrain(ConstitutiveLaw):
         self, eps: t.Union[float, ArrayLike]
     ) -> t.Union[float, ArrayLike]:
         """Return the tangent for given strain."""
+        eps = eps if np.isscalar(eps) else np.atleast_1d(eps)
         if not self._strain_compatibility:
-            return self._wrapped_law.get_tangent(0) * 1e-6
+            tangent = self._wrapped_law.get_tangent(0) * 1e-6
+            return tangent if np.isscalar(eps) else np.ones_like(eps) * tangent
         return self._wrapped_law.get_tangent(eps + self._initial_strain)
 
     def __marin__(
@@ -97,6 +100,9 @@ class InitialStrain(ConstitutiveLaw):
             [(0, -0.002), (-0.002, -0.003)]
             [(a0, a1, a2), (a0)]
         """
+        if not self._strain_compatibility:
+            # The stress does not depend on the strain
+            return None, [(self._initial_stress,)]
         return self._wrapped_law.__marin__(
             strain=[strain[0] + self._initial_strain, strain[1]]
         )
@@ -115,6 +121,9 @@ class InitialStrain(ConstitutiveLaw):
             [(0, -0.002), (-0.002, -0.003)]
             [(a0, a1, a2), (a0)]
         """
+        if not self._strain_compatibility:
+            # The tangent does not depend on the strain
+            return None, [(self.get_tangent(0.0),)]
         return self._wrapped_law.__marin_tangent__(
             strain=[strain[0] + self._initial_strain, strain[1]]
         )
-- 
2.43.0


From eb73371843de25d2f901f238f0086e8aecb3f032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:25 +0000
Subject: [PATCH 19/54] fix: tangent and secant of integer strains are not
 truncated

---
 structuralcodes/core/base.py                                    | 2 +-
 .../materials/constitutive_laws/_parabolarectangle.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/structuralcodes/core/base.py b/structuralcodes/core/base.py
index febe7d1..ed345a3 100644
--- a/structuralcodes/core/base.py
+++ b/structuralcodes/core/base.py
@@ -303,7 +303,7 @@ class ConstitutiveLaw(abc.ABC):
             return self.get_tangent(eps)
 
         # Calculate secant for array eps
-        secant = np.zeros_like(eps)
+        secant = np.zeros_like(eps, dtype=float)
         strain_is_zero = eps == 0
         strain_is_nonzero = eps != 0
         secant[strain_is_zero] = self.get_tangent(eps[strain_is_zero])
diff --git a/structuralcodes/materials/constitutive_laws/_parabolarectangle.py b/structuralcodes/materials/constitutive_laws/_parabolarectangle.py
index 6ad498c..78590be 100644
--- a/structuralcodes/materials/constitutive_laws/_parabolarectangle.py
+++ b/structuralcodes/materials/constitutive_laws/_parabolarectangle.py
@@ -96,7 +96,7 @@ class ParabolaRectangle(ConstitutiveLaw):
             return tangent
         # If it is an array
         # parabolic branch
-        tangent = np.zeros_like(eps)
+        tangent = np.zeros_like(eps, dtype=float)
         tangent[(eps <= 0) & (eps >= self._eps_0)] = (
             self._n
             * self._fc
-- 
2.43.0


From 93b4ae8b9bccdb41b3103011e89b74ee5513dfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 20/54] fix: the name of a constitutive law is not case
 sensitive

---
 structuralcodes/materials/constitutive_laws/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structuralcodes/materials/constitutive_laws/__init__.py b/structuralcodes/materials/constitutive_laws/__init__.py
index 7261853..1d3b0bd 100644
--- a/structuralcodes/materials/constitutive_laws/__init__.py
+++ b/structuralcodes/materials/constitutive_laws/__init__.py
@@ -73,7 +73,7 @@ def create_constitutive_law(
     """
     const_law = CONSTITUTIVE_LAWS.get(constitutive_law_name.lower())
     if const_law is not None:
-        method_name = f'__{constitutive_law_name}__'
+        method_name = f'__{constitutive_law_name.lower()}__'
         # check if the material object has the special method needed
         if hasattr(material, method_name) and callable(
             getattr(material, method_name)
-- 
2.43.0


From 8602890453b174243cb8191a5d4cee7889e33950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 21/54] fix: a single bar can be placed along a line or a
 circle

---
 structuralcodes/geometry/_reinforcement.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/structuralcodes/geometry/_reinforcement.py b/structuralcodes/geometry/_reinforcement.py
index 05faf7b..c319b3f 100644
--- a/structuralcodes/geometry/_reinforcement.py
+++ b/structuralcodes/geometry/_reinforcement.py
@@ -94,7 +94,7 @@ def add_reinforcement_line(
         p1 = p1 + v * (distance - d) / 2.0
     elif n > 0:
         # Provided the number of bars
-        s = distance / (n - 1)
+        s = distance / (n - 1) if n > 1 else 0.0
     elif s > 0:
         # Provided the spacing
         # 1. Compute the number of bars
@@ -206,7 +206,6 @@ def add_reinforcement_circle(
         delta_angle = (length - needed_length) / 2.0 / radius
     elif n > 0:
         # Provided the number of bars
-        s = length / (n - 1)
         # If we are distributing bars i the whole circle add a fictitious extra
         # bar (than later will be removed).
         n += add_n
-- 
2.43.0


From f4a284de20f68e14812b5e68f75cac51ea4f4182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:06 +0000
Subject: [PATCH 22/54] fix: the first bar of a circle is not placed twice when
 the spacing divides the circle

---
 structuralcodes/geometry/_reinforcement.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/structuralcodes/geometry/_reinforcement.py b/structuralcodes/geometry/_reinforcement.py
index c319b3f..7848022 100644
--- a/structuralcodes/geometry/_reinforcement.py
+++ b/structuralcodes/geometry/_reinforcement.py
@@ -216,9 +216,9 @@ def add_reinforcement_circle(
         # 2. Distribute the bars centered in the curvilinear segment
         needed_length = (n - 1) * s
         delta_angle = (length - needed_length) / 2.0 / radius
-        # set whole to False bacause in this case we don't need to deal with
-        # the special case
-        whole = False
+        # In this case we need to deal with the special case only if the bars
+        # close the circle, i.e. if the last bar would overlap the first one
+        whole = whole and math.isclose(needed_length, length)
     else:
         raise ValueError('At least n or s should be provided')
 
-- 
2.43.0


From eda4b36f2b8e0e6a92cf259842bdc77d318a74a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:26 +0000
Subject: [PATCH 23/54] fix: the MC2010 shear resistance applies the given
 steel safety factor once

---
 structuralcodes/codes/mc2010/_concrete_shear.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/structuralcodes/codes/mc2010/_concrete_shear.py b/structuralcodes/codes/mc2010/_concrete_shear.py
index 5e5eab9..a8c18db 100644
--- a/structuralcodes/codes/mc2010/_concrete_shear.py
+++ b/structuralcodes/codes/mc2010/_concrete_shear.py
@@ -136,11 +136,9 @@ def v_rd(
             gamma_c,
         )
 
-    f_ywd = f_ywk / gamma_s
-
     if approx_lvl in (1, 2):
         return min(
-            v_rds(asw, sw, z, f_ywk, theta, alpha),
+            v_rds(asw, sw, z, f_ywk, theta, alpha, gamma_s),
             v_rd_max(
                 approx_lvl,
                 fck,
@@ -182,8 +180,9 @@ def v_rd(
             gamma_c,
         )
 
-        if (V_rdc + v_rds(asw, sw, z, f_ywd, theta, alpha)) < V_rd_max:
-            return V_rdc + v_rds(asw, sw, z, f_ywd, theta, alpha)
+        V_rds = v_rds(asw, sw, z, f_ywk, theta, alpha, gamma_s)
+        if V_rdc + V_rds < V_rd_max:
+            return V_rdc + V_rds
 
         return v_rd(
             2,
@@ -201,6 +200,7 @@ def v_rd(
             theta,
             alpha,
             gamma_c,
+            gamma_s,
         )
 
     raise ValueError('invalid approx level')
-- 
2.43.0


From d02a18dfa0a3d222caa0cd25f5e55d704647565f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:32 +0000
Subject: [PATCH 24/54] fix: naming a design code for a material does not
 change the global design code

---
 structuralcodes/codes/__init__.py | 43 +++++++++++++++++++------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/structuralcodes/codes/__init__.py b/structuralcodes/codes/__init__.py
index 1877b24..1d4192a 100644
--- a/structuralcodes/codes/__init__.py
+++ b/structuralcodes/codes/__init__.py
@@ -43,24 +43,36 @@ def set_design_code(
         Call get_design_codes() to get a list of the available codes.
     """
     global _CODE  # pylint: disable=W0603
-    if design_code is None:
-        # Reset to None
-        _CODE = None
-    elif isinstance(design_code, str) and design_code.lower() in _DESIGN_CODES:
+    # Reset to None if no design code is given
+    _CODE = None if design_code is None else _find_design_code(design_code)
+
+
+def _find_design_code(
+    design_code: t.Union[str, types.ModuleType],
+) -> types.ModuleType:
+    """Find a design code without setting it globally.
+
+    Args:
+        design_code (Union[str, Moduletype]): The abbreviation of the code
+            (str), or a module that represents the code (ModuleType).
+
+    Raises:
+        ValueError: If the design code is not valid.
+    """
+    if isinstance(design_code, str) and design_code.lower() in _DESIGN_CODES:
         # The design code abbreviation is valid
-        _CODE = _DESIGN_CODES.get(design_code.lower())
-    elif isinstance(design_code, types.ModuleType) and all(
+        return _DESIGN_CODES.get(design_code.lower())
+    if isinstance(design_code, types.ModuleType) and all(
         name in dir(design_code)
         for name in ('__title__', '__year__', '__materials__')
     ):
         # The module is a valid design code
-        _CODE = design_code
-    else:
-        raise ValueError(
-            f'{design_code} is not a valid abbreviation for a design code, or'
-            ' a valid module representing a design code.\nType '
-            'get_design_codes() to list the available design codes.'
-        )
+        return design_code
+    raise ValueError(
+        f'{design_code} is not a valid abbreviation for a design code, or'
+        ' a valid module representing a design code.\nType '
+        'get_design_codes() to list the available design codes.'
+    )
 
 
 def get_design_codes() -> t.List[str]:
@@ -97,6 +109,5 @@ def _use_design_code(
         # Returned the globally set design code
         return _CODE
 
-    # Set design code before returning
-    set_design_code(design_code)
-    return _CODE
+    # The globally set design code is not changed
+    return _find_design_code(design_code)
-- 
2.43.0


From edb13b9285ca342a2c9fc0a6daf215605af28361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 25/54] fix: a strain profile found in the last allowed
 iteration is returned

---
 structuralcodes/sections/_generic.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 458bf34..5ff900c 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -1512,11 +1512,8 @@ class GenericSectionCalculator(SectionCalculator):
             lu, piv = lu_factor(stiffness_tangent)
 
         # Do Newton loops
-        while True:
-            # Check if number of iterations exceeds the maximum
-            if num_iter > max_iter:
-                break
-
+        converged = False
+        while num_iter < max_iter and not converged:
             # Calculate response and residuals
             response = np.array(self.integrate_strain_profile(strain=strain))
             residual = loads - response
@@ -1544,10 +1541,9 @@ class GenericSectionCalculator(SectionCalculator):
             num_iter += 1
 
             # Check for convergence:
-            if np.linalg.norm(delta_strain) < tol:
-                break
+            converged = np.linalg.norm(delta_strain) < tol
 
-        if num_iter >= max_iter:
+        if not converged:
             raise StopIteration('Maximum number of iterations reached.')
 
         return strain.tolist()
-- 
2.43.0


From 7b64650d5f7b7060459c120c06c261e99a9c4689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:30 +0000
Subject: [PATCH 26/54] fix: kc_flanges_area and sr_max_theta raise the
 documented errors

---
 structuralcodes/codes/ec2_2004/_section_7_3_crack_control.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/structuralcodes/codes/ec2_2004/_section_7_3_crack_control.py b/structuralcodes/codes/ec2_2004/_section_7_3_crack_control.py
index e0a4ae2..9d20420 100644
--- a/structuralcodes/codes/ec2_2004/_section_7_3_crack_control.py
+++ b/structuralcodes/codes/ec2_2004/_section_7_3_crack_control.py
@@ -224,6 +224,9 @@ def kc_flanges_area(f_cr: float, A_ct: float, fct_eff: float) -> float:
     Raises:
         ValueError: If A_ct is less than 0mm2.
     """
+    if A_ct < 0:
+        raise ValueError(f'A_ct={A_ct} cannot be less than 0')
+
     f_cr = abs(f_cr)
     return max(0.9 * f_cr * 1000 / A_ct / fct_eff, 0.5)
 
@@ -907,6 +910,8 @@ def sr_max_theta(sr_max_y: float, sr_max_z: float, theta: float) -> float:
         raise ValueError(f'sr_max_y={sr_max_y} cannot be less than zero')
     if sr_max_z < 0:
         raise ValueError(f'sr_max_z={sr_max_z} cannot be less than zero')
+    if theta < 0 or theta > math.pi / 2:
+        raise ValueError(f'theta={theta} must be between 0 and pi/2')
 
     a = math.cos(theta) / sr_max_y
     b = math.sin(theta) / sr_max_z
-- 
2.43.0


From 507cd8f89cfc371603766fc5320fb7dd056b5ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:54 +0000
Subject: [PATCH 27/54] fix: Asw_s_required raises the documented error for a
 wrong strut angle

---
 structuralcodes/codes/ec2_2004/shear.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/structuralcodes/codes/ec2_2004/shear.py b/structuralcodes/codes/ec2_2004/shear.py
index b6efa3f..29bc8c4 100644
--- a/structuralcodes/codes/ec2_2004/shear.py
+++ b/structuralcodes/codes/ec2_2004/shear.py
@@ -430,6 +430,8 @@ def Asw_s_required(
     Raises:
         ValueError: When theta < 21.8 degrees or theta > 45 degrees.
     """
+    # Check the angle of the compression strut
+    _theta(theta)
     theta = math.radians(theta)
     alpha = math.radians(alpha)
     return (
-- 
2.43.0


From 40c8e2ed8a72d37d4907cce5e4cb1ee0c59c7770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:57 +0000
Subject: [PATCH 28/54] fix: sigma_s raises the documented error for k below 1

---
 structuralcodes/codes/ec2_2023/_section5_materials.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structuralcodes/codes/ec2_2023/_section5_materials.py b/structuralcodes/codes/ec2_2023/_section5_materials.py
index 921016f..5225294 100644
--- a/structuralcodes/codes/ec2_2023/_section5_materials.py
+++ b/structuralcodes/codes/ec2_2023/_section5_materials.py
@@ -964,8 +964,8 @@ def sigma_s(
         raise ValueError(f'Es={Es} must be larger than 0')
     if fy <= 0:
         raise ValueError(f'fyk={fy} must be larger than 0')
-    if k < 0:
-        raise ValueError(f'k={k} must be larger than 1')
+    if k < 1:
+        raise ValueError(f'k={k} must be larger or equal to 1')
 
     eps_y = fy / Es
 
-- 
2.43.0


From 898c3e52b837249ad77623f4f607b0b3f4b8ae88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:57 +0000
Subject: [PATCH 29/54] fix: the names exported by ec2_2023 exist

---
 structuralcodes/codes/ec2_2023/__init__.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/structuralcodes/codes/ec2_2023/__init__.py b/structuralcodes/codes/ec2_2023/__init__.py
index c866214..801b0d0 100644
--- a/structuralcodes/codes/ec2_2023/__init__.py
+++ b/structuralcodes/codes/ec2_2023/__init__.py
@@ -81,7 +81,6 @@ __all__ = [
     'phi_50y_t0',
     'phi_correction_factor',
     'reinforcement_duct_props',
-    'sigma_c',
     'sigma_p',
     'sigma_s',
     'weight_c',
-- 
2.43.0


From ad533d1ff8039847292cd0654281681422db6313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:48 +0000
Subject: [PATCH 30/54] fix: polynomial pieces of a law with initial strain are
 given in the strain of the section

---
 .../constitutive_laws/_initial_strain.py        | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/structuralcodes/materials/constitutive_laws/_initial_strain.py b/structuralcodes/materials/constitutive_laws/_initial_strain.py
index 8a2c4b8..dc81ef1 100644
--- a/structuralcodes/materials/constitutive_laws/_initial_strain.py
+++ b/structuralcodes/materials/constitutive_laws/_initial_strain.py
@@ -86,6 +86,17 @@ class InitialStrain(ConstitutiveLaw):
             return tangent if np.isscalar(eps) else np.ones_like(eps) * tangent
         return self._wrapped_law.get_tangent(eps + self._initial_strain)
 
+    def _shift_ranges(
+        self, strains: t.Optional[t.List[t.Tuple]]
+    ) -> t.Optional[t.List[t.Tuple]]:
+        """The ranges of strain of the wrapped law without the initial strain."""
+        if strains is None:
+            return None
+        return [
+            (eps_0 - self._initial_strain, eps_1 - self._initial_strain)
+            for eps_0, eps_1 in strains
+        ]
+
     def __marin__(
         self, strain: t.Tuple[float, float]
     ) -> t.Tuple[t.List[t.Tuple], t.List[t.Tuple]]:
@@ -103,9 +114,10 @@ class InitialStrain(ConstitutiveLaw):
         if not self._strain_compatibility:
             # The stress does not depend on the strain
             return None, [(self._initial_stress,)]
-        return self._wrapped_law.__marin__(
+        strains, coeff = self._wrapped_law.__marin__(
             strain=[strain[0] + self._initial_strain, strain[1]]
         )
+        return self._shift_ranges(strains), coeff
 
     def __marin_tangent__(
         self, strain: t.Tuple[float, float]
@@ -124,9 +136,10 @@ class InitialStrain(ConstitutiveLaw):
         if not self._strain_compatibility:
             # The tangent does not depend on the strain
             return None, [(self.get_tangent(0.0),)]
-        return self._wrapped_law.__marin_tangent__(
+        strains, coeff = self._wrapped_law.__marin_tangent__(
             strain=[strain[0] + self._initial_strain, strain[1]]
         )
+        return self._shift_ranges(strains), coeff
 
     def get_ultimate_strain(
         self, yielding: bool = False
-- 
2.43.0


From 0c03965253b3f7dd1c5d894da77761ac4558c0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:48 +0000
Subject: [PATCH 31/54] fix: Sargin raises the documented error for a
 plasticity number that is not positive

---
 structuralcodes/materials/constitutive_laws/_sargin.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/structuralcodes/materials/constitutive_laws/_sargin.py b/structuralcodes/materials/constitutive_laws/_sargin.py
index 4b5d6f1..3de1179 100644
--- a/structuralcodes/materials/constitutive_laws/_sargin.py
+++ b/structuralcodes/materials/constitutive_laws/_sargin.py
@@ -57,6 +57,8 @@ class Sargin(ConstitutiveLaw):
         self._fc = -abs(fc)
         self._eps_c1 = -abs(eps_c1)
         self._eps_cu1 = -abs(eps_cu1)
+        if k <= 0:
+            raise ValueError('The plasticity number k must be positive.')
         self._k = k
 
     def get_stress(
-- 
2.43.0


From 04b28a5d09c82019ee73e2a774b2340e4f3214b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:48 +0000
Subject: [PATCH 32/54] fix: UserDefined keeps its own copy of the data as real
 numbers

---
 structuralcodes/materials/constitutive_laws/_userdefined.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structuralcodes/materials/constitutive_laws/_userdefined.py b/structuralcodes/materials/constitutive_laws/_userdefined.py
index fc27554..6a03a7e 100644
--- a/structuralcodes/materials/constitutive_laws/_userdefined.py
+++ b/structuralcodes/materials/constitutive_laws/_userdefined.py
@@ -48,8 +48,8 @@ class UserDefined(ConstitutiveLaw):
         """
         name = name if name is not None else 'UserDefinedLaw'
         super().__init__(name=name)
-        x = np.atleast_1d(np.asarray(x))
-        y = np.atleast_1d(np.asarray(y))
+        x = np.array(x, dtype=float, ndmin=1)
+        y = np.array(y, dtype=float, ndmin=1)
         if len(x) != len(y):
             raise ValueError('The two arrays should have the same length')
         if not np.any(x < 0):
-- 
2.43.0


From 9d0a0cd4bb5bbf38668b1467355be0d74a3fbed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:00 +0000
Subject: [PATCH 33/54] fix: laws without polynomial form can be put in
 parallel and integrated

---
 structuralcodes/materials/constitutive_laws/_parallel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structuralcodes/materials/constitutive_laws/_parallel.py b/structuralcodes/materials/constitutive_laws/_parallel.py
index b037c94..27f5588 100644
--- a/structuralcodes/materials/constitutive_laws/_parallel.py
+++ b/structuralcodes/materials/constitutive_laws/_parallel.py
@@ -195,7 +195,7 @@ class Parallel(ConstitutiveLaw):
         # Apply interval merging with piecewise polynomial combination
         laws_marin = []
         for law in self.wrapped_laws:
-            laws_marin.append(law.__marin__(strain))
+            laws_marin.append(law.__marin__(strain=strain))
 
         return self._split_marin(laws_marin)
 
@@ -216,7 +216,7 @@ class Parallel(ConstitutiveLaw):
         # Apply interval merging with piecewise polynomial combination
         laws_marin = []
         for law in self.wrapped_laws:
-            laws_marin.append(law.__marin_tangent__(strain))
+            laws_marin.append(law.__marin_tangent__(strain=strain))
 
         return self._split_marin(laws_marin)
 
-- 
2.43.0


From 33ec7a52853a531c987dc30a20fc11d376bede9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:50 +0000
Subject: [PATCH 34/54] fix: tangent of an elastic-plastic law is not truncated
 for integer strains

---
 structuralcodes/materials/constitutive_laws/_elasticplastic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structuralcodes/materials/constitutive_laws/_elasticplastic.py b/structuralcodes/materials/constitutive_laws/_elasticplastic.py
index 8efc8e7..ae7aae9 100644
--- a/structuralcodes/materials/constitutive_laws/_elasticplastic.py
+++ b/structuralcodes/materials/constitutive_laws/_elasticplastic.py
@@ -90,7 +90,7 @@ class ElasticPlastic(ConstitutiveLaw):
             return tangent
 
         eps = np.atleast_1d(eps)
-        tangent = np.ones_like(eps) * self._E
+        tangent = np.ones_like(eps, dtype=float) * self._E
         tangent[eps > self._eps_sy] = self._Eh
         tangent[eps < -self._eps_sy] = self._Eh
         if self._eps_su is not None:
-- 
2.43.0


From a23ed59cf82414a6147071e71f3e11b2c8a85168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:44 +0000
Subject: [PATCH 35/54] fix: a compression law ends at its ultimate strain even
 if that precedes the peak strain

---
 .../constitutive_laws/_bilinearcompression.py | 21 +++++++++-------
 .../constitutive_laws/_parabolarectangle.py   | 24 ++++++++++---------
 2 files changed, 25 insertions(+), 20 deletions(-)

diff --git a/structuralcodes/materials/constitutive_laws/_bilinearcompression.py b/structuralcodes/materials/constitutive_laws/_bilinearcompression.py
index d178aa7..7d3fecb 100644
--- a/structuralcodes/materials/constitutive_laws/_bilinearcompression.py
+++ b/structuralcodes/materials/constitutive_laws/_bilinearcompression.py
@@ -69,7 +69,7 @@ class BilinearCompression(ConstitutiveLaw):
         eps = eps if np.isscalar(eps) else np.atleast_1d(eps)
         # If it is a scalar
         if np.isscalar(eps):
-            if self._eps_c < eps <= 0:
+            if self._eps_c < eps <= 0 and eps >= self._eps_cu:
                 return self._E
             return 0
 
@@ -77,6 +77,7 @@ class BilinearCompression(ConstitutiveLaw):
         tangent = np.ones_like(eps) * self._E
         tangent[eps > 0] = 0
         tangent[eps <= self._eps_c] = 0
+        tangent[eps < self._eps_cu] = 0
 
         return tangent
 
@@ -107,7 +108,7 @@ class BilinearCompression(ConstitutiveLaw):
                 # We are in tensile branch
                 strains = None
                 coeff.append((0.0,))
-            elif strain[0] > self._eps_c:
+            elif strain[0] > self._eps_c and strain[0] >= self._eps_cu:
                 # We are in the linear branch
                 strains = None
                 a0 = self._E * strain[0]
@@ -124,13 +125,14 @@ class BilinearCompression(ConstitutiveLaw):
                 coeff.append((0.0,))
         else:
             # linear part
-            strains.append((self._eps_c, 0))
+            strains.append((max(self._eps_c, self._eps_cu), 0))
             a0 = self._E * strain[0]
             a1 = self._E * strain[1]
             coeff.append((a0, a1))
             # Constant part
-            strains.append((self._eps_cu, self._eps_c))
-            coeff.append((self._fc,))
+            if self._eps_cu <= self._eps_c:
+                strains.append((self._eps_cu, self._eps_c))
+                coeff.append((self._fc,))
         return strains, coeff
 
     def __marin_tangent__(
@@ -160,7 +162,7 @@ class BilinearCompression(ConstitutiveLaw):
                 # We are in tensile branch
                 strains = None
                 coeff.append((0.0,))
-            elif strain[0] > self._eps_c:
+            elif strain[0] > self._eps_c and strain[0] >= self._eps_cu:
                 # We are in the linear branch
                 strains = None
                 a0 = self._E
@@ -173,12 +175,13 @@ class BilinearCompression(ConstitutiveLaw):
                 coeff.append((0.0,))
         else:
             # linear part
-            strains.append((self._eps_c, 0))
+            strains.append((max(self._eps_c, self._eps_cu), 0))
             a0 = self._E
             coeff.append((a0,))
             # Constant part
-            strains.append((self._eps_cu, self._eps_c))
-            coeff.append((0.0,))
+            if self._eps_cu <= self._eps_c:
+                strains.append((self._eps_cu, self._eps_c))
+                coeff.append((0.0,))
         return strains, coeff
 
     def get_ultimate_strain(
diff --git a/structuralcodes/materials/constitutive_laws/_parabolarectangle.py b/structuralcodes/materials/constitutive_laws/_parabolarectangle.py
index 78590be..e2a815b 100644
--- a/structuralcodes/materials/constitutive_laws/_parabolarectangle.py
+++ b/structuralcodes/materials/constitutive_laws/_parabolarectangle.py
@@ -58,7 +58,7 @@ class ParabolaRectangle(ConstitutiveLaw):
         # If it is a scalar
         if np.isscalar(eps):
             sig = 0
-            if self._eps_0 <= eps <= 0:
+            if max(self._eps_0, self._eps_u) <= eps <= 0:
                 sig = self._fc * (1 - (1 - eps / self._eps_0) ** self._n)
             if self._eps_u <= eps < self._eps_0:
                 sig = self._fc
@@ -86,7 +86,7 @@ class ParabolaRectangle(ConstitutiveLaw):
         # If it is a scalar
         if np.isscalar(eps):
             tangent = 0
-            if self._eps_0 <= eps <= 0:
+            if max(self._eps_0, self._eps_u) <= eps <= 0:
                 tangent = (
                     self._n
                     * self._fc
@@ -105,7 +105,7 @@ class ParabolaRectangle(ConstitutiveLaw):
             ** (self._n - 1)
         )
         # Elsewhere tangent is zero
-        tangent[eps < self._eps_0] = 0.0
+        tangent[eps < max(self._eps_0, self._eps_u)] = 0.0
         tangent[eps > 0] = 0.0
         return tangent
 
@@ -141,7 +141,7 @@ class ParabolaRectangle(ConstitutiveLaw):
                 # We are in tensile branch
                 strains = None
                 coeff.append((0.0,))
-            elif strain[0] > self._eps_0:
+            elif strain[0] > self._eps_0 and strain[0] >= self._eps_u:
                 # We are in the parabolic branch
                 strains = None
                 a0 = (
@@ -170,7 +170,7 @@ class ParabolaRectangle(ConstitutiveLaw):
                 coeff.append((0.0,))
         else:
             # Parabolic part
-            strains.append((self._eps_0, 0))
+            strains.append((max(self._eps_0, self._eps_u), 0))
             a0 = (
                 2
                 * self._fc
@@ -188,8 +188,9 @@ class ParabolaRectangle(ConstitutiveLaw):
             a2 = -self._fc * strain[1] ** 2 / self._eps_0**2
             coeff.append((a0, a1, a2))
             # Constant part
-            strains.append((self._eps_u, self._eps_0))
-            coeff.append((self._fc,))
+            if self._eps_u <= self._eps_0:
+                strains.append((self._eps_u, self._eps_0))
+                coeff.append((self._fc,))
         return strains, coeff
 
     def __marin_tangent__(
@@ -224,7 +225,7 @@ class ParabolaRectangle(ConstitutiveLaw):
                 # We are in tensile branch
                 strains = None
                 coeff.append((0.0,))
-            elif strain[0] > self._eps_0:
+            elif strain[0] > self._eps_0 and strain[0] >= self._eps_u:
                 # We are in the parabolic branch
                 strains = None
                 a0 = (
@@ -243,13 +244,14 @@ class ParabolaRectangle(ConstitutiveLaw):
                 coeff.append((0.0,))
         else:
             # Parabolic part
-            strains.append((self._eps_0, 0))
+            strains.append((max(self._eps_0, self._eps_u), 0))
             a0 = 2 * self._fc / self._eps_0 * (1 - (strain[0] / self._eps_0))
             a1 = -2 * self._fc / self._eps_0**2 * strain[1]
             coeff.append((a0, a1))
             # Constant part
-            strains.append((self._eps_u, self._eps_0))
-            coeff.append((0.0,))
+            if self._eps_u <= self._eps_0:
+                strains.append((self._eps_u, self._eps_0))
+                coeff.append((0.0,))
         return strains, coeff
 
     def get_ultimate_strain(
-- 
2.43.0


From 12c6c37af79a61262657422142c167ad99dba6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:43 +0000
Subject: [PATCH 36/54] fix: surfaces keep name, group and concrete flag when
 moved, cut or copied

---
 structuralcodes/geometry/_geometry.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/structuralcodes/geometry/_geometry.py b/structuralcodes/geometry/_geometry.py
index ea2cd00..35f5b4b 100644
--- a/structuralcodes/geometry/_geometry.py
+++ b/structuralcodes/geometry/_geometry.py
@@ -562,7 +562,13 @@ class SurfaceGeometry(Geometry):
             for g in other.geometries:
                 sub_polygon = sub_polygon - g.polygon
 
-        return SurfaceGeometry(poly=sub_polygon, material=material)
+        return SurfaceGeometry(
+            poly=sub_polygon,
+            material=material,
+            concrete=self.concrete,
+            name=self._name,
+            group_label=self._group_label,
+        )
 
     def _repr_svg_(self) -> str:
         """Returns the svg representation."""
@@ -582,6 +588,8 @@ class SurfaceGeometry(Geometry):
             poly=affinity.translate(self.polygon, dx, dy),
             material=self.material,
             concrete=self.concrete,
+            name=self._name,
+            group_label=self._group_label,
         )
 
     def rotate(
@@ -609,6 +617,8 @@ class SurfaceGeometry(Geometry):
             ),
             material=self.material,
             concrete=self.concrete,
+            name=self._name,
+            group_label=self._group_label,
         )
 
     def mirror(self, axis: LineString) -> SurfaceGeometry:
@@ -631,6 +641,8 @@ class SurfaceGeometry(Geometry):
             poly=affinity.affine_transform(self.polygon, params),
             material=self.material,
             concrete=self.concrete,
+            name=self._name,
+            group_label=self._group_label,
         )
 
     @staticmethod
@@ -668,7 +680,12 @@ class SurfaceGeometry(Geometry):
             # elastic modulus
             new_material = ElasticMaterial.from_material(geo.material)
 
-        return SurfaceGeometry(poly=geo.polygon, material=new_material)
+        return SurfaceGeometry(
+            poly=geo.polygon,
+            material=new_material,
+            name=geo._name,
+            group_label=geo._group_label,
+        )
 
     # here we can also add static methods like:
     # from_points
-- 
2.43.0


From 3885227c75464a1cf80c1a003c97cb124f25afe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:07 +0000
Subject: [PATCH 37/54] fix: asking for the polygon of a profile does not
 change the table of profiles

---
 structuralcodes/geometry/profiles/_ipn.py | 2 +-
 structuralcodes/geometry/profiles/_l.py   | 5 +++--
 structuralcodes/geometry/profiles/_li.py  | 5 +++--
 structuralcodes/geometry/profiles/_u.py   | 1 +
 structuralcodes/geometry/profiles/_upn.py | 1 +
 5 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/structuralcodes/geometry/profiles/_ipn.py b/structuralcodes/geometry/profiles/_ipn.py
index 1c9a231..3917635 100644
--- a/structuralcodes/geometry/profiles/_ipn.py
+++ b/structuralcodes/geometry/profiles/_ipn.py
@@ -222,7 +222,7 @@ class IPN(BaseProfile):
                 "Select a valid profile (available ones: "
                 f"{cls.profiles()})"
             )
-        parameters['slope'] = 0.14
+        parameters = dict(parameters, slope=0.14)
         return _create_taper_I_section(
             **{
                 key: parameters[key]
diff --git a/structuralcodes/geometry/profiles/_l.py b/structuralcodes/geometry/profiles/_l.py
index 8339fbf..330e18a 100644
--- a/structuralcodes/geometry/profiles/_l.py
+++ b/structuralcodes/geometry/profiles/_l.py
@@ -434,8 +434,9 @@ class L(BaseProfile):
                 "Select a valid profile (available ones: "
                 f"{cls.profiles()})"
             )
-        parameters['t1'] = parameters['t']
-        parameters['t2'] = parameters['t']
+        parameters = dict(
+            parameters, t1=parameters['t'], t2=parameters['t']
+        )
         return _create_L_section(
             **{
                 key: parameters[key]
diff --git a/structuralcodes/geometry/profiles/_li.py b/structuralcodes/geometry/profiles/_li.py
index 6dfdb84..59c9540 100644
--- a/structuralcodes/geometry/profiles/_li.py
+++ b/structuralcodes/geometry/profiles/_li.py
@@ -123,8 +123,9 @@ class LI(BaseProfile):
                 "Select a valid profile (available ones: "
                 f"{cls.profiles()})"
             )
-        parameters['t1'] = parameters['t']
-        parameters['t2'] = parameters['t']
+        parameters = dict(
+            parameters, t1=parameters['t'], t2=parameters['t']
+        )
         return _create_L_section(
             **{
                 key: parameters[key]
diff --git a/structuralcodes/geometry/profiles/_u.py b/structuralcodes/geometry/profiles/_u.py
index ccbfc35..a64c347 100644
--- a/structuralcodes/geometry/profiles/_u.py
+++ b/structuralcodes/geometry/profiles/_u.py
@@ -65,6 +65,7 @@ class U(BaseProfile):
                 "Select a valid profile (available ones: "
                 f"{cls.profiles()})"
             )
+        parameters = dict(parameters)
         parameters['slope'] = 0.08
         parameters['u'] = parameters['b'] / 2.0
         return _create_taper_U_section(
diff --git a/structuralcodes/geometry/profiles/_upn.py b/structuralcodes/geometry/profiles/_upn.py
index 8211d30..ef362b1 100644
--- a/structuralcodes/geometry/profiles/_upn.py
+++ b/structuralcodes/geometry/profiles/_upn.py
@@ -197,6 +197,7 @@ class UPN(BaseProfile):
                 "Select a valid profile (available ones: "
                 f"{cls.profiles()})"
             )
+        parameters = dict(parameters)
         if parameters['h'] <= 300:
             parameters['slope'] = 0.08
             parameters['u'] = parameters['b'] / 2.0
-- 
2.43.0


From 5c1bd8913bb53b3fa3520874282e2547611cd744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:08 +0000
Subject: [PATCH 38/54] fix: splitting a surface along one of its edges does
 not lose parts of it

---
 structuralcodes/geometry/_geometry.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/structuralcodes/geometry/_geometry.py b/structuralcodes/geometry/_geometry.py
index 35f5b4b..43a0414 100644
--- a/structuralcodes/geometry/_geometry.py
+++ b/structuralcodes/geometry/_geometry.py
@@ -494,9 +494,25 @@ class SurfaceGeometry(Geometry):
         above_polygons = []
         below_polygons = []
         if line.intersects(self.polygon):
-            result = split(self.polygon, line)
+            pieces = split(self.polygon, line).geoms
+            if not np.isclose(
+                sum(geom.area for geom in pieces), self.polygon.area, rtol=1e-9
+            ):
+                # A piece may get lost if the line follows an edge. Overlay the
+                # polygon with everything on the left of the line instead.
+                reach = 1.1 * self.polygon.hausdorff_distance(line)
+                factor = 1 + 2 * reach / line.length
+                left = affinity.scale(line, factor, factor).buffer(
+                    reach, single_sided=True
+                )
+                pieces = [
+                    geom
+                    for part in (self.polygon & left, self.polygon - left)
+                    for geom in getattr(part, 'geoms', [part])
+                    if geom.area > 0
+                ]
             # divide polygons "above" and "below" line
-            for geom in result.geoms:
+            for geom in pieces:
                 if LinearRing(
                     (line.coords[0], line.coords[1], geom.centroid.coords[0])
                 ).is_ccw:
-- 
2.43.0


From 9ae122f37315572d92088be765e3bc03fbe4dbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:14 +0000
Subject: [PATCH 39/54] fix: steep cutting lines keep their precision

---
 structuralcodes/geometry/_geometry.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/structuralcodes/geometry/_geometry.py b/structuralcodes/geometry/_geometry.py
index 43a0414..0eb3ad9 100644
--- a/structuralcodes/geometry/_geometry.py
+++ b/structuralcodes/geometry/_geometry.py
@@ -352,7 +352,7 @@ def create_line_point_angle(
     v = (np.cos(theta), np.sin(theta))
 
     # check if the line is vertical to avoid div by zero
-    if abs(v[0]) > 1e-8:
+    if abs(v[0]) > 1e-3:
         # it is a non vertical line
         tg = v[1] / v[0]
         x1 = bbox[0] - 1e-3
@@ -368,6 +368,9 @@ def create_line_point_angle(
         x1 = point[0] + (y1 - point[1]) * ctg
         x2 = point[0] + (y2 - point[1]) * ctg
     # create the line
+        if ctg < -1e-8:
+            # a steep line runs from left to right like all others
+            x1, y1, x2, y2 = x2, y2, x1, y1
     return LineString([(x1, y1), (x2, y2)])
 
 
-- 
2.43.0


From 416a1dafd2d992df06f25483f2c8c571169f7c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:54 +0000
Subject: [PATCH 40/54] fix: cracked properties keep the parts that are not
 concrete

---
 structuralcodes/sections/_rc_utils.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/structuralcodes/sections/_rc_utils.py b/structuralcodes/sections/_rc_utils.py
index d6ca692..90a16ae 100644
--- a/structuralcodes/sections/_rc_utils.py
+++ b/structuralcodes/sections/_rc_utils.py
@@ -114,8 +114,14 @@ def calculate_elastic_cracked_properties(
 
     # Cutting concrete geometries and retaining the compressed block
     cut_geom = None
-    for part in rotated_geometry.geometries:
-        upper_div, lower_div = part.split(((0, z_na), 0))
+    for part, original in zip(
+        rotated_geometry.geometries, section.geometry.geometries
+    ):
+        if original.concrete:
+            upper_div, lower_div = part.split(((0, z_na), 0))
+        else:
+            # Parts that are not made of concrete also carry tension
+            upper_div = [part.polygon]
         # Convert to SurfaceGeometry
         subpart = _create_surface_geometries(upper_div, part.material)
         if cut_geom is None:
-- 
2.43.0


From 19040a61fdf33d3714a2be17ff95c6ef20d65d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:59 +0000
Subject: [PATCH 41/54] fix: the part of a surface between two lines is made of
 polygons only

---
 structuralcodes/geometry/_geometry.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/structuralcodes/geometry/_geometry.py b/structuralcodes/geometry/_geometry.py
index 0eb3ad9..b957d22 100644
--- a/structuralcodes/geometry/_geometry.py
+++ b/structuralcodes/geometry/_geometry.py
@@ -10,6 +10,7 @@ import numpy as np
 from numpy.typing import ArrayLike
 from shapely import affinity
 from shapely.geometry import (
+    GeometryCollection,
     LinearRing,
     LineString,
     MultiLineString,
@@ -557,7 +558,15 @@ class SurfaceGeometry(Geometry):
         lines_polygon = multi_line.convex_hull
 
         # get the intersection
-        return self.polygon.intersection(lines_polygon)
+        result = self.polygon.intersection(lines_polygon)
+        if isinstance(result, GeometryCollection):
+            # Where the polygon just touches one of the lines, the intersection
+            # also contains lines and points: only the polygons are parts of it
+            polygons = [g for g in result.geoms if isinstance(g, Polygon)]
+            result = (
+                polygons[0] if len(polygons) == 1 else MultiPolygon(polygons)
+            )
+        return result
 
     def __sub__(self, other: Geometry) -> SurfaceGeometry:
         """Add operator "-" for geometries.
-- 
2.43.0


From d0d231751552ec9d2e6ca9a103a848b88cdea8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:11 +0000
Subject: [PATCH 42/54] fix: cracked properties by the fibre method find their
 neutral axis

---
 structuralcodes/sections/_rc_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structuralcodes/sections/_rc_utils.py b/structuralcodes/sections/_rc_utils.py
index 90a16ae..063fb2a 100644
--- a/structuralcodes/sections/_rc_utils.py
+++ b/structuralcodes/sections/_rc_utils.py
@@ -73,7 +73,7 @@ def calculate_elastic_cracked_properties(
         density = geo.material.density
         if geo.concrete:
             # It is concrete we only give compression behavior
-            elastic_law = UserDefined([-100, 0], [-100 * E, 0])
+            elastic_law = UserDefined([-100, 0, 100], [-100 * E, 0, 0])
             elastic_law = GenericMaterial(
                 density=density,
                 constitutive_law=elastic_law,
-- 
2.43.0


From e20afe6af1f6024d4c6f0bbf7cd5e22aa35804bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:18 +0000
Subject: [PATCH 43/54] fix: an axial force out of reach for the inclination is
 rejected

---
 structuralcodes/sections/_generic.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 5ff900c..68b15c0 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -453,6 +453,16 @@ class GenericSectionCalculator(SectionCalculator):
             geom, [eps_0, chi_b, 0], integration_data=self.integration_data
         )
         dn_b = n_int - n
+        if (
+            not yielding
+            and dn_a * dn_b > 0
+            and not math.isclose(n_int, n, rel_tol=1e-5, abs_tol=1e-2)
+        ):
+            # There is no equilibrium between the two strain profiles
+            raise ValueError(
+                f'Axial load {n} cannot be taken by section with this '
+                'inclination of the neutral axis.'
+            )
         it = 0
         while (abs(dn_a - dn_b) > 1e-2) and (it < ITMAX):
             chi_c = (chi_a + chi_b) / 2.0
-- 
2.43.0


From c594ba832d5748ff7e31ccd5343bc9b9dce0a679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:24 +0000
Subject: [PATCH 44/54] fix: bisection for equilibrium keeps a solution that it
 hits exactly

---
 structuralcodes/sections/_generic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 68b15c0..67b46d4 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -476,7 +476,7 @@ class GenericSectionCalculator(SectionCalculator):
                 geom, [eps_0, chi_c, 0], integration_data=self.integration_data
             )
             dn_c = n_int - n
-            if dn_c * dn_a < 0:
+            if dn_c * dn_a <= 0:
                 chi_b = chi_c
                 dn_b = dn_c
             else:
@@ -612,7 +612,7 @@ class GenericSectionCalculator(SectionCalculator):
                 integration_data=self.integration_data,
             )
             dn_c = n_int - n
-            if dn_a * dn_c < 0:
+            if dn_a * dn_c <= 0:
                 dn_b = dn_c
                 eps_0_b = eps_0_c
             else:
-- 
2.43.0


From 64fe5b27fa36b57582613a7ae6e92dc84698555a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:58 +0000
Subject: [PATCH 45/54] fix: a curvature without equilibrium is rejected after
 the restarts of the search

---
 structuralcodes/sections/_generic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 67b46d4..c87e6a1 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -541,12 +541,12 @@ class GenericSectionCalculator(SectionCalculator):
                 # Restart the process with a small delta
                 if diverging_steps > 10:
                     delta /= 2
-                    it = 0
+                    it = -1
                     restarts += 1
                     diverging = False
                     diverging_steps = 0
             it += 1
-        if it >= ITMAX and not found:
+        if not found:
             s = f'Last iteration reached a unbalance of: \
                 dn_a = {dn_a} dn_b = {dn_b})'
             raise ValueError(f'Maximum number of iterations reached.\n{s}')
-- 
2.43.0


From cf1b213dec2fbba396376fb01567a41f55f0f0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:22 +0000
Subject: [PATCH 46/54] fix: geometric spacing of a field without points or
 without extent

---
 structuralcodes/sections/_generic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index c87e6a1..89a5e81 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -1232,6 +1232,8 @@ class GenericSectionCalculator(SectionCalculator):
             if type.lower() == 'linear':
                 return np.linspace(a, b, n, endpoint=endpoint)
             if type.lower() == 'geometric':
+                if n == 0 or a == b:
+                    return np.full(n, a, dtype=float)
                 if b != 0 and a != 0:
                     return np.geomspace(a, b, n, endpoint=endpoint)
                 small_value = 1e-10
-- 
2.43.0


From e5dfd3c9d18c5dd5bd0f447f52f781842c957f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:47 +0000
Subject: [PATCH 47/54] fix: field 6 of a domain when the bar is at the height
 of the pivot

---
 structuralcodes/sections/_generic.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 89a5e81..a620004 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -1292,10 +1292,20 @@ class GenericSectionCalculator(SectionCalculator):
                 ),
                 eps_n_y,
             )
-            eps_n_6 = (
-                -(eps_n_y - eps_p_6) * (z_pivot - y_n) / (z_pivot - y_p)
-                + eps_n_y
-            )
+            if abs(z_pivot - y_p) > 1e-6 * abs(h):
+                eps_n_6 = (
+                    -(eps_n_y - eps_p_6) * (z_pivot - y_n) / (z_pivot - y_p)
+                    + eps_n_y
+                )
+            else:
+                # The strain does not change at y_p, only at y_n
+                eps_p_6 = np.zeros(num_6) + eps_n_y
+                eps_n_6 = np.append(
+                    _np_space(
+                        eps_n_b, eps_n_y, num_6 - 1, type_6, endpoint=False
+                    ),
+                    eps_n_y,
+                )
         else:
             eps_n_6 = np.zeros(num_6) + eps_n_b
             eps_p_6 = np.append(
-- 
2.43.0


From f4fe7cdf0d5df1d44a25fa6fe1e807b0667bf355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:25 +0000
Subject: [PATCH 48/54] fix: a failed calculation does not leave a section
 without its own fibres

---
 structuralcodes/sections/_generic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index a620004..81336cb 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -97,11 +97,14 @@ class GenericSection(Section):
 
 def _keep_integration_data(method):
     """Put the integration data back if a calculation in a rotated reference
-    system fails, so that the following calculations are not affected.
+    system fails, so that the following calculations are not affected. The
+    limits of the axial load are found first: they are kept, and the section is
+    triangulated for them in its own reference system.
     """
 
     @functools.wraps(method)
     def wrapper(self, *args, **kwargs):
+        _ = self.n_min
         integration_data = self.integration_data
         try:
             return method(self, *args, **kwargs)
-- 
2.43.0


From 1fbb29755340ac62833900f1b6109a97c50cd47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:56 +0000
Subject: [PATCH 49/54] fix: the plastic modulus about z does not replace the
 polygon of a profile

---
 .../geometry/profiles/_base_profile.py        | 31 +++++++++----------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/structuralcodes/geometry/profiles/_base_profile.py b/structuralcodes/geometry/profiles/_base_profile.py
index b9eeff8..0b43349 100644
--- a/structuralcodes/geometry/profiles/_base_profile.py
+++ b/structuralcodes/geometry/profiles/_base_profile.py
@@ -47,25 +47,25 @@ class BaseProfile:
                 'The polygon for some reason was not correctly defined.'
             )
 
-    def _find_plastic_neutral_axis_y(self) -> float:
+    def _find_plastic_neutral_axis_y(self, polygon: Polygon) -> float:
         """Find posizion z of plastic neutral axes parallel to y.
 
         We use bisection algorithm within the section limits.
         """
-        bounds = self.polygon.bounds
+        bounds = polygon.bounds
         zmin, zmax = bounds[1], bounds[3]
 
         zA = zmin
         zB = zmax
 
-        daA = self._find_delta_area_above_minus_below(z=zA)
+        daA = self._find_delta_area_above_minus_below(polygon, z=zA)
 
         ITMAX = 200
         it = 0
 
         while (it < ITMAX) and (abs(zB - zA) > (zmax - zmin) * 1e-10):
             zC = (zA + zB) / 2.0
-            daC = self._find_delta_area_above_minus_below(z=zC)
+            daC = self._find_delta_area_above_minus_below(polygon, z=zC)
             if abs(daC) < 1e-10:
                 break
             if daA * daC < 0:
@@ -82,21 +82,23 @@ class BaseProfile:
 
         return zC
 
-    def _find_delta_area_above_minus_below(self, z: float) -> float:
+    def _find_delta_area_above_minus_below(
+        self, polygon: Polygon, z: float
+    ) -> float:
         """Returns area difference between above and below parts.
 
         Above and below parts are computed splitting the polygon with a line
         parallel to Y axes at z coordinate.
         """
-        bounds = self._polygon.bounds
+        bounds = polygon.bounds
         xmax = max(abs(bounds[0]), bounds[2])
         line = LineString([[-xmax * 1.05, z], [xmax * 1.05, z]])
 
         area_above = 0
         area_below = 0
         # divide polygons "above" and "below" line
-        if line.intersects(self._polygon):
-            result = split(self._polygon, line)
+        if line.intersects(polygon):
+            result = split(polygon, line)
             # divide polygons "above" and "below" line
             for geom in result.geoms:
                 if LinearRing(
@@ -107,7 +109,7 @@ class BaseProfile:
                     area_below += geom.area
         else:
             # not intersecting, all the polygon is above or below the line
-            geom = self.polygon
+            geom = polygon
             if LinearRing(
                 (line.coords[0], line.coords[1], geom.centroid.coords[0])
             ).is_ccw:
@@ -249,7 +251,7 @@ class BaseProfile:
             # Compute plastic section modulus
             # find plastic neutral axis parallel to y
             self._Wply = 0
-            z_pna = self._find_plastic_neutral_axis_y()
+            z_pna = self._find_plastic_neutral_axis_y(self._polygon)
             poly = translate(self._polygon, xoff=0, yoff=-z_pna)
             result = split(
                 poly,
@@ -271,10 +273,10 @@ class BaseProfile:
             ymax = max(abs(bounds[1]), bounds[3])
             # Compute plastic section modulus
             # # find plastic neutral axis parallel to z
-            self._polygon = rotate(geom=self._polygon, angle=90, origin=(0, 0))
+            rotated = rotate(geom=self._polygon, angle=90, origin=(0, 0))
             self._Wplz = 0
-            y_pna = self._find_plastic_neutral_axis_y()
-            poly = translate(self._polygon, xoff=0, yoff=-y_pna)
+            y_pna = self._find_plastic_neutral_axis_y(rotated)
+            poly = translate(rotated, xoff=0, yoff=-y_pna)
             result = split(
                 poly,
                 LineString([[-ymax * 1.05, 0], [ymax * 1.05, 0]]),
@@ -282,9 +284,6 @@ class BaseProfile:
             for poly in result.geoms:
                 xy = poly.exterior.coords.xy
                 self._Wplz += abs(marin_integration(xy[0], xy[1], 0, 1))
-            self._polygon = rotate(
-                geom=self._polygon, angle=-90, origin=(0, 0)
-            )
         return self._Wplz
 
     @property
-- 
2.43.0


From 2c488faa6d9237e11fd8fc83a9dcdc1ca43fa731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:11 +0000
Subject: [PATCH 50/54] fix: an initial stress is found in any unit of stress

---
 structuralcodes/core/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/structuralcodes/core/base.py b/structuralcodes/core/base.py
index ed345a3..fb1d3fc 100644
--- a/structuralcodes/core/base.py
+++ b/structuralcodes/core/base.py
@@ -128,9 +128,10 @@ class Material(abc.ABC):
         """
         # Iteratively compute the initial strain that gives the desired
         # initial stress. Note that the wrapped law can be nonlinear
-        tol = 1e-12
         max_iter = 100
         target_stress = self._initial_stress
+        # The tolerance follows the unit of the stress
+        tol = 1e-12 * max(1.0, abs(target_stress))
         strain = 0.0
         stress = self._constitutive_law.get_stress(strain)
         d_stress = target_stress - stress
-- 
2.43.0


From 7bdc51664b8119fa3e3fa524ad7d889014926048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:01 +0000
Subject: [PATCH 51/54] fix: coordinates of a bar beyond the second are left
 out as announced

---
 structuralcodes/geometry/_geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structuralcodes/geometry/_geometry.py b/structuralcodes/geometry/_geometry.py
index b957d22..84a3572 100644
--- a/structuralcodes/geometry/_geometry.py
+++ b/structuralcodes/geometry/_geometry.py
@@ -170,7 +170,7 @@ class PointGeometry(Geometry):
                 warn_str += ' coords provided. The extra entries will be'
                 warn_str += ' discarded'
                 warnings.warn(warn_str)
-            point = Point(coords)
+            point = Point(coords[:2])
         if not isinstance(material, Material):
             raise TypeError(
                 f'mat should be a valid structuralcodes.base.Material object. \
-- 
2.43.0


From bb1a6ce691f34ce6442b0f0ff71c96b8c5133cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:01 +0000
Subject: [PATCH 52/54] fix: a spacing that divides a length up to rounding
 fits exactly

---
 structuralcodes/geometry/_reinforcement.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/structuralcodes/geometry/_reinforcement.py b/structuralcodes/geometry/_reinforcement.py
index 7848022..bc05673 100644
--- a/structuralcodes/geometry/_reinforcement.py
+++ b/structuralcodes/geometry/_reinforcement.py
@@ -86,7 +86,7 @@ def add_reinforcement_line(
         # Provided both the number of bars and spacing
         # 1. Check the is enough space for fitting the bars
         d = (n - 1) * s
-        if d > distance:
+        if d > distance and not math.isclose(d, distance):
             raise ValueError(
                 f'There is not room to fit {n} bars with a spacing of {s} \
                 in {distance}'
@@ -98,7 +98,8 @@ def add_reinforcement_line(
     elif s > 0:
         # Provided the spacing
         # 1. Compute the number of bars
-        n = math.floor(distance / s) + 1
+        # (a spacing that divides the distance does so up to rounding)
+        n = math.floor(distance / s * (1 + 1e-12)) + 1
         # 2. Distribute the bars centered in the segment
         d = (n - 1) * s
         p1 = p1 + v * (distance - d) / 2.0
@@ -197,7 +198,9 @@ def add_reinforcement_circle(
         # Check there is enough space for fitting the bars
         n += add_n
         needed_length = (n - 1) * s
-        if needed_length > length:
+        if needed_length > length and not math.isclose(
+            needed_length, length
+        ):
             raise ValueError(
                 f'There is not room to fit {n} bars with a spacing of {s} \
                 in {length}'
@@ -212,7 +215,8 @@ def add_reinforcement_circle(
     elif s > 0:
         # Provided the spacing
         # 1. Compute the number of bars
-        n = math.floor(length / s) + 1
+        # (a spacing that divides the length does so up to rounding)
+        n = math.floor(length / s * (1 + 1e-12)) + 1
         # 2. Distribute the bars centered in the curvilinear segment
         needed_length = (n - 1) * s
         delta_angle = (length - needed_length) / 2.0 / radius
-- 
2.43.0


From 466e6445ae00bba888e8300a9fdeab32ae103a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:46:49 +0000
Subject: [PATCH 53/54] fix: searches of strain planes of another geometry do
 not use nor leave the integration data of the section

---
 structuralcodes/sections/_generic.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 81336cb..5a62172 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -115,6 +115,26 @@ def _keep_integration_data(method):
     return wrapper
 
 
+def _integration_data_of_geometry(method):
+    """Leave the integration data aside if they do not belong to the geometry
+    of a calculation, i.e. to the section or to the rotated section of the
+    calculation that is going on.
+    """
+
+    @functools.wraps(method)
+    def wrapper(self, geom, *args, **kwargs):
+        if geom is self.section.geometry or geom is self._rotated_geometry:
+            return method(self, geom, *args, **kwargs)
+        integration_data = self.integration_data
+        self.integration_data = None
+        try:
+            return method(self, geom, *args, **kwargs)
+        finally:
+            self.integration_data = integration_data
+
+    return wrapper
+
+
 class GenericSectionCalculator(SectionCalculator):
     """Calculator class implementing analysis algorithms for code checks."""
 
@@ -146,6 +166,8 @@ class GenericSectionCalculator(SectionCalculator):
         self.mesh_size = kwargs.get('mesh_size', 0.01)
         # triangulated_data used for Fibre integrator
         self.integration_data = None
+        # The geometry that the integration data are rotated to
+        self._rotated_geometry = None
         # Maximum and minimum axial load
         self._n_max = None
         self._n_min = None
@@ -392,6 +414,7 @@ class GenericSectionCalculator(SectionCalculator):
         strain = [eps_0, -chi_min, 0]
         return (y_n, y_p, strain)
 
+    @_integration_data_of_geometry
     def find_equilibrium_fixed_pivot(
         self, geom: CompoundGeometry, n: float, yielding: bool = False
     ) -> t.List[float]:
@@ -555,6 +578,7 @@ class GenericSectionCalculator(SectionCalculator):
             raise ValueError(f'Maximum number of iterations reached.\n{s}')
         return (eps_0_b, dn_b)
 
+    @_integration_data_of_geometry
     def find_equilibrium_fixed_curvature(
         self, geom: CompoundGeometry, n: float, curv: float, eps_0: float
     ) -> t.Tuple[float, float, float]:
@@ -790,6 +814,7 @@ class GenericSectionCalculator(SectionCalculator):
         if self.integration_data is not None:
             # Rotate also triangulated data!
             self._rotate_integration_data(-theta)
+        self._rotated_geometry = rotated_geom
 
         # Find the strain distribution corresponding to failure and equilibrium
         # with external axial force
@@ -871,6 +896,7 @@ class GenericSectionCalculator(SectionCalculator):
         if self.integration_data is not None:
             # Rotate also triangulated data!
             self._rotate_integration_data(-theta)
+        self._rotated_geometry = rotated_geom
 
         if chi is None:
             # Find ultimate curvature from the strain distribution
-- 
2.43.0


From 2c32e9f017ee24af1d358ac749daea3791951ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:23:35 +0000
Subject: [PATCH 54/54] fix: the search of the strain plane of an axial force
 ends at a curvature that is not lost in rounding

---
 structuralcodes/sections/_generic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/structuralcodes/sections/_generic.py b/structuralcodes/sections/_generic.py
index 5a62172..848b005 100644
--- a/structuralcodes/sections/_generic.py
+++ b/structuralcodes/sections/_generic.py
@@ -465,7 +465,9 @@ class GenericSectionCalculator(SectionCalculator):
         if abs(dn_a) <= 1e-2:
             # return the equilibrium position
             return [strain[0], chi_a, 0]
-        chi_b = -1e-13
+        # A curvature that is almost zero, but that can be told from the
+        # rounding of the strains
+        chi_b = min(-1e-13, 1e-10 * chi_a)
         if n_int < n:
             # Too much compression, raise NA
             pivot = y_p
-- 
2.43.0

