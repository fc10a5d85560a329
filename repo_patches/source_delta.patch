From a56a1c34f34d0b152e049de699796f2d7681fc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 01/21] fix: Mirror can be built without a DMD normal

Every non-DMD mirror crashed in unit_vector(None).
---
 optics3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/optics3d.py b/optics3d.py
index 43a2a5f..b6e509b 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -153,7 +153,7 @@ class Mirror(Optic):
         self.thickness = thickness
         self.f = f
         self.type = type
-        self.dmd_normal = unit_vector(dmd_normal)
+        self.dmd_normal = unit_vector(dmd_normal) if dmd_normal is not None else None
         self.surfaces = []
         if shape == "circular_flat":
             self.normal = unit_vector(normal)
-- 
2.43.0


From 7277ebc925c10cb5814bf03dfd1d2acd5e2f2f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 02/21] fix: hand the hit optic its own inside/outside
 information

Ray.run passed the value reported by the last optic in the list, so a ball
lens followed by any other optic was refracted with swapped indices.
---
 optics3d.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/optics3d.py b/optics3d.py
index b6e509b..319e457 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -851,6 +851,7 @@ class Ray:
                             intersected_optic = optic
                             intersection_pt = int_pt
                             intersection_normal = normal
+                            intersection_from_outside = shooting_from_outside
             if not intersected:
                 if self.print_trajectory:
                     print("not intersected (messages TODO)")
@@ -867,7 +868,7 @@ class Ray:
                     self.blocked = True
                 else:
                     # do it:
-                    intersected_optic.do_intersect(self, intersection_pt, intersection_normal, shooting_from_outside)
+                    intersected_optic.do_intersect(self, intersection_pt, intersection_normal, intersection_from_outside)
                     # we did it
         if self.print_trajectory:
             print("--- run complete ---")
-- 
2.43.0


From 4ccc893901ba64ad42f93a85cfdb5f2364e9717b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 03/21] fix: a tangent point behind the ray is not a hit

Sphere and InfiniteCylinder reported tangent points at negative distance.
---
 Shapes/shapes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Shapes/shapes.py b/Shapes/shapes.py
index 4b82543..d1fe6f6 100644
--- a/Shapes/shapes.py
+++ b/Shapes/shapes.py
@@ -230,7 +230,8 @@ class InfiniteCylinder(Shape):
                 intersection_count = 0
                 return False, None, None, None, None, intersection_count
         elif t0_objectSpace is not None:  # line intersects in one point, tangent
-            # TODO handle negative t0
+            if not t0 > INTERSECT_CLIPPING_FLOOR:  # the tangent point is behind the ray
+                return False, None, None, None, None, 0
             intersection_count = 2 # ugh, I'm counting this case as two cause you're probably outside, give me a break
             return True, pt0, None, normal0, None, intersection_count
         else:  # (discriminant < 0) line intersects in no points
@@ -345,8 +346,9 @@ class Sphere(Shape):
                 intersection_count = 0
                 return False, None, None, None, None, intersection_count
         elif discrim == 0:  # line intersects in one point, tangent
-            # TODO handle negative t0
             t0 = vDotQ
+            if not t0 > INTERSECT_CLIPPING_FLOOR:  # the tangent point is behind the ray
+                return False, None, None, None, None, intersection_count
             pt0 = ray.position + t0 * ray.direction
             norm0 = self.normal(pt0)
             intersection_count = 2 # ugh, I'm counting this case as two cause you're probably outside, give me a break
-- 
2.43.0


From 0f48a2a517e363db1ea3e9abcd26e3d61c7ff395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 04/21] fix: a ray parallel to a cylinder's axis misses it

InfiniteCylinder.test_intersect divided by zero and reported a hit at NaN.
---
 Shapes/shapes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Shapes/shapes.py b/Shapes/shapes.py
index d1fe6f6..83d63d8 100644
--- a/Shapes/shapes.py
+++ b/Shapes/shapes.py
@@ -170,7 +170,10 @@ class InfiniteCylinder(Shape):
         B = 2 * xE * xD + 2 * yE * yD
         C = xE ** 2 + yE ** 2 - 1
         discriminant = B * B - 4 * A * C
-        if discriminant > 0: # line (not necessarily the ray) intersects in two points
+        if A < 1e-18:  # ray (almost) parallel to the axis, it never crosses the lateral surface
+            t0_objectSpace = None
+            t1_objectSpace = None
+        elif discriminant > 0: # line (not necessarily the ray) intersects in two points
             root = np.sqrt(discriminant)
             # some numerical bit to avoid loss of precision in the quadratic,
             # avoid subtracting two things of potentially similar magnitude
-- 
2.43.0


From cf3dc7697d41418dd5362b3e3415a2775dff8ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 05/21] fix: rotation helpers no longer normalise their
 arguments in place

They modified the caller's vectors and crashed on integer vectors, e.g.
pathpatch_2d_to_3d(p, normal='z').
---
 general_optics.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/general_optics.py b/general_optics.py
index c14073c..07fe4cc 100644
--- a/general_optics.py
+++ b/general_optics.py
@@ -64,8 +64,8 @@ def rotation_matrix2(a, b):
     """
     Calculates the rotation matrix that rotates unit vector a onto unit vector b.
     """
-    a /= np.linalg.norm(a)
-    b /= np.linalg.norm(b)
+    a = unit_vector(a)
+    b = unit_vector(b)
 
     v = np.cross(a, b)
     sin_angle = np.linalg.norm(v)
@@ -127,8 +127,8 @@ def rotation_matrix(v1, v2):
     """
     Calculates the rotation matrix that changes v1 into v2.
     """
-    v1 /= np.linalg.norm(v1)
-    v2 /= np.linalg.norm(v2)
+    v1 = unit_vector(v1)
+    v2 = unit_vector(v2)
 
     cos_angle = np.dot(v1, v2)
     d = np.cross(v1, v2)
-- 
2.43.0


From fd1dcc82050805bbc96482d6b4cfb177f2be2fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 06/21] fix: aligning opposite vectors gives a rotation, not a
 point reflection

---
 general_optics.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/general_optics.py b/general_optics.py
index 07fe4cc..304f14c 100644
--- a/general_optics.py
+++ b/general_optics.py
@@ -59,6 +59,14 @@ def rotation_matrix_axis_angle(axis, theta):
                      [2 * (bd + ac), 2 * (cd - ab), aa + dd - bb - cc]])
 
 
+def half_turn_matrix(a):
+    """
+    Rotation by 180 degrees about some axis perpendicular to unit vector a, i.e., a rotation of a onto -a.
+    """
+    p = unit_vector(np.cross(a, np.identity(3)[np.argmin(np.abs(a))]))
+    return 2 * np.outer(p, p) - np.identity(3)
+
+
 # https://math.stackexchange.com/questions/180418/calculate-rotation-matrix-to-align-vector-a-to-vector-b-in-3d
 def rotation_matrix2(a, b):
     """
@@ -72,7 +80,7 @@ def rotation_matrix2(a, b):
     cos_angle = np.dot(a, b)
 
     if sin_angle == 0:
-        M = np.identity(3) if cos_angle > 0. else -np.identity(3)
+        M = np.identity(3) if cos_angle > 0. else half_turn_matrix(a)
     else:
         eye = np.eye(3)
         skew = np.array([[    0,  -v[2],   v[1]],
@@ -135,7 +143,7 @@ def rotation_matrix(v1, v2):
     sin_angle = np.linalg.norm(d)
 
     if sin_angle == 0:
-        M = np.identity(3) if cos_angle > 0. else -np.identity(3)
+        M = np.identity(3) if cos_angle > 0. else half_turn_matrix(v1)
     else:
         d /= sin_angle
 
-- 
2.43.0


From ed42190a284fc99291dcda63c4da00f31b8a7c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 07/21] fix: rotation_matrix2 for nearly opposite vectors

1 + cos_angle rounds to zero there and the matrix became NaN.
---
 general_optics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/general_optics.py b/general_optics.py
index 304f14c..b81b07b 100644
--- a/general_optics.py
+++ b/general_optics.py
@@ -82,11 +82,12 @@ def rotation_matrix2(a, b):
     if sin_angle == 0:
         M = np.identity(3) if cos_angle > 0. else half_turn_matrix(a)
     else:
+        v = v / sin_angle
         eye = np.eye(3)
         skew = np.array([[    0,  -v[2],   v[1]],
                          [ v[2],      0,  -v[0]],
                          [-v[1],   v[0],      0]], dtype=np.float64)
-        M = eye + skew + np.dot(skew, skew) / (1 + cos_angle)
+        M = eye + sin_angle * skew + (1 - cos_angle) * np.dot(skew, skew)
     return M
 
 
-- 
2.43.0


From 911302b7e91d59cfb4f597754df44f549179e612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 08/21] fix: angle_between of parallel vectors is not NaN

The dot product of two unit vectors can exceed 1 by rounding.
---
 general_optics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/general_optics.py b/general_optics.py
index b81b07b..0bd8a0a 100644
--- a/general_optics.py
+++ b/general_optics.py
@@ -29,7 +29,7 @@ def angle_between(v1, v2, v_normal=None):
     if v_normal is not None: # signed
         angle = np.arctan2(np.dot((np.cross(v2_u, v1_u)), v_normal), np.dot(v1_u, v2_u))
     else: # unsigned
-        angle = np.arccos(np.dot(v1_u, v2_u))
+        angle = np.arccos(np.clip(np.dot(v1_u, v2_u), -1.0, 1.0))
     return angle
 
 
-- 
2.43.0


From e17b72982c99af70e1e898818d820960c727035c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 09/21] fix: grating equation for positive incidence angles

The specular ray was turned the wrong way unless alpha was negative, so the
diffracted ray violated sin(alpha) + sin(beta) = G m lambda.
---
 optics3d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optics3d.py b/optics3d.py
index 319e457..b565554 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -810,9 +810,9 @@ class Ray:
             # theta = n + grating_sign_convention * beta
             # TODO convert back to ray direction
             r = incident - 2 * np.dot(incident, normal) * normal  # reflected
-            RM1 = rotation_matrix_axis_angle(dispersion_plane_normal, -grating_sign_convention * alpha)
+            RM1 = rotation_matrix_axis_angle(dispersion_plane_normal, alpha)  # from specular to grating normal
 #            self.direction = unit_vector(RM1.dot(r))
-            RM2 = rotation_matrix_axis_angle(dispersion_plane_normal, -beta)
+            RM2 = rotation_matrix_axis_angle(dispersion_plane_normal, grating_sign_convention * beta)
             self.direction = unit_vector(RM2.dot(unit_vector(RM1.dot(r))))
             if self.print_trajectory:
                 print("light at wavelength {} turned {} by grating".format(self.wavelength, alpha + beta))
-- 
2.43.0


From 945c4d5574d9961a3e0b2bb8d75495966e07f5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:59 +0000
Subject: [PATCH 10/21] fix: a grating hit on its back face diffracts back to
 that side

The normal is turned toward the incident light, otherwise the ray leaves through the grating.
---
 optics3d.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/optics3d.py b/optics3d.py
index b565554..e774cfd 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -787,6 +787,8 @@ class Ray:
         elif reflect_type == "grating":
             normal = unit_vector(normal)
             incident = unit_vector(self.direction)
+            if np.dot(incident, normal) > 0:  # make the normal face the incident light
+                normal = -normal
             # get only angles in the grating active plane
             dispersion_plane_normal = optic.tangent
             n = unit_vector(project_onto_plane(normal, dispersion_plane_normal))
-- 
2.43.0


From 85eb0904ee5e06cc57f1fafb56527690d8f8c07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:43 +0000
Subject: [PATCH 11/21] fix: a difference hit only through its first part does
 not crash

helper_findIntersects returns four values, and measures the distance to the point it returns.
---
 general_optics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/general_optics.py b/general_optics.py
index 0bd8a0a..ee537ea 100644
--- a/general_optics.py
+++ b/general_optics.py
@@ -415,7 +415,7 @@ def helper_findIntersects(res, ray, mode='nearest'):
         distance = distance1
         number_of_intersections = 1
     elif (res[2] is not None):
-        distance2 = distance_between(ray.position, res[1])
+        distance2 = distance_between(ray.position, res[2])
         point = res[2]
         normal = res[4]
         distance = distance2
@@ -619,7 +619,7 @@ def operCsgDifference(resA, resB, ray):
     # else, if the ray is only hitting primitive A, for difference A - B this is a hit:
     elif resA[0]:
         intersected = True
-        pointA, normalA = helper_findIntersects(resA, ray, mode='nearest')
+        pointA, normalA, distanceA, number_intersectionsA = helper_findIntersects(resA, ray, mode='nearest')
         return intersected, pointA, None, normalA, None, intersection_count_total
 
     # else, if the ray is only hitting primitive B, for difference A - B this is a miss:
-- 
2.43.0


From 204c2150de5b4ca2a180029b2aee5be7ad0150e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:43 +0000
Subject: [PATCH 12/21] fix: first surface of a difference for every start and
 order of crossings

The ray may start inside either part, and the second part may lie wholly in front of the first.
---
 general_optics.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/general_optics.py b/general_optics.py
index ee537ea..8deaa7c 100644
--- a/general_optics.py
+++ b/general_optics.py
@@ -605,14 +605,23 @@ def operCsgDifference(resA, resB, ray):
         pointB_far, normalB_far, distanceB_far, number_intersectionsB = helper_findIntersects(resB, ray, mode='farthest')
         # take THAT for data
 
-        # from the magic internet pseudocode:
-        if distanceA_near < distanceB_near:
+        # an odd count means that the ray starts inside that primitive
+        insideA = resA[5] % 2 == 1
+        insideB = resB[5] % 2 == 1
+        if insideA and not insideB:
+            # starting inside A - B, leave it where A ends or where B begins
+            if distanceA_near < distanceB_near:
+                return intersected, pointA_near, None, normalA_near, None, intersection_count_total
+            else:
+                return intersected, pointB_near, None, normalB_near, None, intersection_count_total
+        elif not insideA and (distanceB_far < distanceA_near or
+                              (not insideB and distanceA_near < distanceB_near)):
+            # A begins before B begins, or after B has ended
             return intersected, pointA_near, None, normalA_near, None, intersection_count_total
         elif distanceB_far < distanceA_far:
             return intersected, pointB_far, None, normalB_far, None, intersection_count_total
         else:
-            # I don't know if it can even reach here, but whatever, lets just put something
-            print("alert: something weird happening in operCsgDifference")
+            # A ends before B does
             intersected = False
             return intersected, None, None, None, None, intersection_count_total
 
-- 
2.43.0


From 730878645cdc95a9f16d437fe7c1ec4bab21aac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:43 +0000
Subject: [PATCH 13/21] fix: first surface of a union for rays starting inside
 it

A surface of one part inside of the other is not a surface of the union.
---
 general_optics.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/general_optics.py b/general_optics.py
index 8deaa7c..e6aa133 100644
--- a/general_optics.py
+++ b/general_optics.py
@@ -450,6 +450,18 @@ def operCsgUnion(resA, resB, ray):
         # since resB is a hit, get tB_min
         pointB, normalB, distanceB, number_intersectionsB = helper_findIntersects(resB, ray, mode='nearest')
 
+        # an odd count means that the ray starts inside that primitive, if the other one then starts before this one
+        # ends the surface in between is not part of the union, which ends where the last of the two ends
+        insideA = resA[5] % 2 == 1
+        insideB = resB[5] % 2 == 1
+        if (insideA and insideB) or (insideA and distanceB < distanceA) or (insideB and distanceA < distanceB):
+            pointA, normalA, distanceA, number_intersectionsA = helper_findIntersects(resA, ray, mode='farthest')
+            pointB, normalB, distanceB, number_intersectionsB = helper_findIntersects(resB, ray, mode='farthest')
+            if distanceA > distanceB:
+                return intersected, pointA, None, normalA, None, intersection_count_total
+            else:
+                return intersected, pointB, None, normalB, None, intersection_count_total
+
         # get int pt for UNION: min(tA_min, tB_min)
         if (pointA is not None) and (pointB is not None):
             if distanceA < distanceB:
-- 
2.43.0


From 672fd6591e07e283537129c60bb311498217cd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:43 +0000
Subject: [PATCH 14/21] fix: diverging ideal lenses and focusers transmit
 forward

For f < 0 the image is virtual, the ray leaves away from it instead of turning back.
---
 optics3d.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/optics3d.py b/optics3d.py
index e774cfd..1a1a59a 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -678,6 +678,8 @@ class Ray:
                 # update the ray's direction to go at the focal point
                 focal_point = optic.position + optic.f * the_optic_normal
                 vector_to_image = focal_point - self.position
+                if optic.f < 0:  # virtual image, the ray travels away from it
+                    vector_to_image = -vector_to_image
                 self.direction = vector_to_image / np.linalg.norm(vector_to_image)
             else:
                 # vectors are neither parallel nor orthogonal
@@ -693,6 +695,8 @@ class Ray:
                 image_point = -object_point
                 # step 3: update the ray's direction to go towards the image point
                 vector_to_image = image_point - r
+                if optic.f < 0:  # virtual image, the ray travels away from it
+                    vector_to_image = -vector_to_image
                 self.direction = vector_to_image / np.linalg.norm(vector_to_image)
 
 
@@ -727,6 +731,8 @@ class Ray:
                 the_optic_normal = optic.normal
             focal_point = optic.position + optic.f * the_optic_normal
             vector_to_image = focal_point - self.position
+            if optic.f < 0:  # virtual image, the ray travels away from it
+                vector_to_image = -vector_to_image
             self.direction = vector_to_image / np.linalg.norm(vector_to_image)
 
         elif refract_type == "snells_law":
-- 
2.43.0


From f2e1727d6173a711399c771bf1c792d179557683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:36 +0000
Subject: [PATCH 15/21] fix: align nearly opposite vectors accurately

---
 general_optics.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/general_optics.py b/general_optics.py
index e6aa133..25c4837 100644
--- a/general_optics.py
+++ b/general_optics.py
@@ -79,8 +79,10 @@ def rotation_matrix2(a, b):
     sin_angle = np.linalg.norm(v)
     cos_angle = np.dot(a, b)
 
-    if sin_angle == 0:
-        M = np.identity(3) if cos_angle > 0. else half_turn_matrix(a)
+    if cos_angle < -0.9999:  # (nearly) opposite, a x b is too small to give the axis, turn to -a first
+        M = np.dot(rotation_matrix2(-a, b), half_turn_matrix(a))
+    elif sin_angle == 0:
+        M = np.identity(3)
     else:
         v = v / sin_angle
         eye = np.eye(3)
@@ -143,8 +145,10 @@ def rotation_matrix(v1, v2):
     d = np.cross(v1, v2)
     sin_angle = np.linalg.norm(d)
 
-    if sin_angle == 0:
-        M = np.identity(3) if cos_angle > 0. else half_turn_matrix(v1)
+    if cos_angle < -0.9999:  # (nearly) opposite, v1 x v2 is too small to give the axis, turn to -v1 first
+        M = np.dot(half_turn_matrix(v1), rotation_matrix(-v1, v2))
+    elif sin_angle == 0:
+        M = np.identity(3)
     else:
         d /= sin_angle
 
-- 
2.43.0


From 19a1e1c9b996b43173c08bec2168995189207b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:19 +0000
Subject: [PATCH 16/21] fix: a compound of a single primitive is hit at its
 nearest crossing

---
 optics3d.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/optics3d.py b/optics3d.py
index 1a1a59a..4bbe9d8 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -9,7 +9,8 @@ Created on Sat Dec  8 23:10:35 2018
 import numpy as np
 from general import to_precision
 from general_optics import unit_vector, angle_between, distance_between, pathpatch_2d_to_3d, pathpatch_translate, \
-    rotation_matrix_axis_angle, project_onto_plane, postOrderEval, test_tree_intersect, test_tree_point
+    rotation_matrix_axis_angle, project_onto_plane, postOrderEval, test_tree_intersect, test_tree_point, \
+    helper_findIntersects
 from mpl_toolkits.mplot3d.art3d import Poly3DCollection
 from matplotlib.patches import Circle as mplCircle
 from matplotlib.patches import Rectangle as mplRectangle
@@ -91,7 +92,10 @@ class Compound(Optic):
         return ("Compound")
 
     def test_intersect(self, ray):
-        intersected, pt1, pt2, norm1, norm2, intersection_count = test_tree_intersect(self.tree, ray)
+        res = test_tree_intersect(self.tree, ray)
+        intersected, intersection_count = res[0], res[5]
+        # a tree of a single primitive has both of its crossings here, in any order, take the nearest
+        pt1, norm1, distance, number_of_intersections = helper_findIntersects(res, ray, mode='nearest')
         # if intersection_count is an even number, we're shooting from outside
         if np.isclose(np.mod(intersection_count, 2), 0): # if even number:
             shooting_from_outside = True
-- 
2.43.0


From 0336cf648ae138b7dbb23f58aedbaa5810d19c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:36 +0000
Subject: [PATCH 17/21] fix: a folder whose name ends with the extension
 stopped the deletion of files

---
 general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/general.py b/general.py
index f08e1ba..570ab2e 100755
--- a/general.py
+++ b/general.py
@@ -422,7 +422,7 @@ def delete_files_with_extension(folder, extensionWithDot, deleteInSubDirectories
                      os.remove(os.path.join(root, file))
     else:
         for file in os.listdir(folder):
-            if file.endswith(extensionWithDot):
+            if file.endswith(extensionWithDot) and not os.path.isdir(os.path.join(folder, file)):
                 print('removing ' + file)
                 os.remove(os.path.join(folder, file))
                 
-- 
2.43.0


From 047453f3dfb83d3e60333790520d1a57c80882e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:18 +0000
Subject: [PATCH 18/21] fix: rectangular mirrors and gratings were drawn turned
 away from their real outline

---
 optics3d.py | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/optics3d.py b/optics3d.py
index 4bbe9d8..fdb13d0 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -292,14 +292,9 @@ class Mirror(Optic):
                 # return the Artist created
                 return None
             elif self.shape == "rectangular_flat":
-                x = self.position[0]
-                y = self.position[1]
-                z = self.position[2]
-                p = mplRectangle((-self.w/2, -self.h/2), width=self.w, height=self.h, facecolor="silver", alpha=0.5,
-                                  edgecolor="black")
-                ax.add_patch(p)
-                pathpatch_2d_to_3d(p, z=0, normal=self.normal)
-                pathpatch_translate(p, (x, y, z))
+                # the corners of the surface itself, turned as the tangent says
+                ax.add_collection3d(Poly3DCollection([self.surfaces[0].bounds], facecolor="silver", alpha=0.5,
+                                                     edgecolor="black"))
                 return None
             elif self.shape == "circular_concave_spherical":  # for now just draw as circle
                 x = self.position[0]
@@ -528,14 +523,9 @@ class Grating(Optic):
         """Um, somehow draw the optic"""
         if view == "3d" or view == "xyz":
             if self.shape == "rectangular_flat":
-                x = self.position[0]
-                y = self.position[1]
-                z = self.position[2]
-                p = mplRectangle((-self.w / 2, -self.h / 2), width=self.w, height=self.h, facecolor="silver", alpha=0.5,
-                                 edgecolor="black")
-                ax.add_patch(p)
-                pathpatch_2d_to_3d(p, z=0, normal=self.normal)
-                pathpatch_translate(p, (x, y, z))
+                # the corners of the surface itself, turned as the tangent says
+                ax.add_collection3d(Poly3DCollection([self.surfaces[0].bounds], facecolor="silver", alpha=0.5,
+                                                     edgecolor="black"))
                 # return the Artist created
                 return None
 
-- 
2.43.0


From 782ed04fe3c49d4264c24a4955b365075b3e93bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:31 +0000
Subject: [PATCH 19/21] fix: printing a block, a ball lens or a convex mirror
 raised

---
 optics3d.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/optics3d.py b/optics3d.py
index fdb13d0..4ac8879 100644
--- a/optics3d.py
+++ b/optics3d.py
@@ -61,7 +61,7 @@ class Optic:
         self.shape = shape
 
     def __repr__(self):
-        return("Optic ({}, {}, {}),  ({}, {}, {})".format(self.optic_type,
+        return("{} ({}, {}, {}),  ({}, {}, {})".format(type(self).__name__,
                                                        to_precision(self.position[0], 5),
                                                        to_precision(self.position[1], 5),
                                                        to_precision(self.position[2], 5),
@@ -154,6 +154,7 @@ class Mirror(Optic):
         self.D = D
         self.w = w
         self.h = h
+        self.normal = None
         self.thickness = thickness
         self.f = f
         self.type = type
@@ -178,6 +179,10 @@ class Mirror(Optic):
 
 
     def __repr__(self):
+        if self.normal is None:
+            return("Mirror ({}, {}, {})".format(to_precision(self.position[0], 5),
+                                              to_precision(self.position[1], 5),
+                                              to_precision(self.position[2], 5)))
         return("Mirror ({}, {}, {}),  ({}, {}, {})".format(to_precision(self.position[0], 5),
                                                            to_precision(self.position[1], 5),
                                                            to_precision(self.position[2], 5),
@@ -345,6 +350,10 @@ class Lens(Optic):
 
 
     def __repr__(self):
+        if self.normal is None:
+            return("Lens ({}, {}, {})".format(to_precision(self.position[0], 5),
+                                            to_precision(self.position[1], 5),
+                                            to_precision(self.position[2], 5)))
         return("Lens ({}, {}, {}),  ({}, {}, {})".format(to_precision(self.position[0], 5),
                                                            to_precision(self.position[1], 5),
                                                            to_precision(self.position[2], 5),
-- 
2.43.0


From 63cfff64e9103b7fa5ee38226d7ff422808e9436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:18 +0000
Subject: [PATCH 20/21] fix: the Fermi-Dirac integral asked linspace for a
 fractional number of samples

---
 general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/general.py b/general.py
index 570ab2e..5431f27 100755
--- a/general.py
+++ b/general.py
@@ -80,7 +80,7 @@ def FD_int_num( eta, j, tol=1e-12, Nmax=600, fType='roman' ):
         for idx, N in enumerate(Nvec):
             a = -4.5 # limits for t
             b = 5.0
-            t = np.linspace( a, b, N + 1 ) # generate intervals
+            t = np.linspace( a, b, int(N) + 1 ) # generate intervals
             x = np.exp( t - np.exp( -t ) )
             f = x * ( 1 + np.exp( -t ) ) * x ** j / ( 1+ np.exp( x - eta ) )
             y = np.trapz( t, f )
-- 
2.43.0


From bf535c5314f8282f04ccccdb50663bd03b9cb15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:18 +0000
Subject: [PATCH 21/21] fix: savitzky_golay used numpy.int, which no longer
 exists

---
 general.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/general.py b/general.py
index 5431f27..21603aa 100755
--- a/general.py
+++ b/general.py
@@ -180,8 +180,8 @@ def savitzky_golay(y, window_size, order, deriv=0, rate=1):
     from math import factorial
     
     try:
-        window_size = np.abs(np.int(window_size))
-        order = np.abs(np.int(order))
+        window_size = np.abs(int(window_size))
+        order = np.abs(int(order))
     except ValueError:
         raise ValueError("window_size and order have to be of type int")
     if window_size % 2 != 1 or window_size < 1:
-- 
2.43.0

