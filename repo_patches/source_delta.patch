From 3d56adfbd141a2c81b6c206b5ee9d4cdffa93948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 01/55] fix: logarithm of the identity rotation and near it in
 expmap.log

---
 rainbow/math/expmap.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/rainbow/math/expmap.py b/rainbow/math/expmap.py
index 50442c5..cc6dc60 100644
--- a/rainbow/math/expmap.py
+++ b/rainbow/math/expmap.py
@@ -1,7 +1,7 @@
 import rainbow.math.matrix3 as M3
 import rainbow.math.vector3 as V3
 import rainbow.math.quaternion as Q
-from math import cos, sin, pi, acos, fmod, fabs
+from math import cos, sin, pi, atan2, fmod, fabs
 from numpy import tan
 
 
@@ -90,16 +90,15 @@ def log(q):
         #
         # Let
         #
-        #    t = theta/2  = acos(s)
-        #    n = w / sin(t)
-        #    v = 2*t*n = 2*t*w / sin(t)
+        #    t = theta/2  = atan2(|w|, s)
+        #    n = w / |w|
+        #    v = 2*t*n = 2*t*w / |w|
         #
-        # If q is the identity quaternion the log(q) should map to zero vector. Recall that
-        # identity is given by q = [1 0 0 0] the above works for this.
-        t = acos(q[0])
-        s = sin(t)
-        f = 2 * t / s
-        return V3.make(f * q[1], f * q[2], f * q[3])
+        # If q is the identity quaternion then w is zero and log(q) should map to the zero vector.
+        w = V3.make(q[1], q[2], q[3])
+        l = V3.norm(w)
+        if l > 0.0:
+            return (2.0 * atan2(l, q[0]) / l) * w
     return V3.zero()
 
 
-- 
2.43.0


From 920e3e9891d0a1064733a823bfcb2bf5679fc1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 02/55] fix: slerp between nearly antipodal quaternions

---
 rainbow/math/quaternion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/math/quaternion.py b/rainbow/math/quaternion.py
index 610d029..02a1af9 100644
--- a/rainbow/math/quaternion.py
+++ b/rainbow/math/quaternion.py
@@ -319,7 +319,7 @@ def slerp(a, b, t):
     small_angle_threshold = 0.9999999
 
     if dot > small_angle_threshold:
-        return unit(lerp(a, b, t))
+        return unit(lerp(-a if flip else a, b, t))
 
     omega = acos(dot)
     sin_omega = sin(omega)
-- 
2.43.0


From 3d85428737e2865ddaf7820f897e2ad8bd5ad64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 03/55] fix: Euler angles of rotations next to gimbal lock

---
 rainbow/math/euler.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rainbow/math/euler.py b/rainbow/math/euler.py
index f62b8d5..1108d51 100644
--- a/rainbow/math/euler.py
+++ b/rainbow/math/euler.py
@@ -1,5 +1,5 @@
 from rainbow.math.quaternion import to_matrix
-from math import atan2, asin, pi
+from math import atan2, asin, cos, sin, pi
 
 
 class EulerXYZ:
@@ -10,10 +10,10 @@ class EulerXYZ:
 
 # Actually R = R_z(theta_z)R_y(theta_y)R_x(theta_x)
 def make_euler_xyz_from_matrix(R):
-    r00 = R[0, 0]
     r01 = R[0, 1]
     r02 = R[0, 2]
-    r10 = R[1, 0]
+    r11 = R[1, 1]
+    r12 = R[1, 2]
     r20 = R[2, 0]
     r21 = R[2, 1]
     r22 = R[2, 2]
@@ -27,9 +27,11 @@ def make_euler_xyz_from_matrix(R):
         ry = pi / 2.0
         rx = 0.0
     else:
-        rz = atan2(r10, r00)
         ry = asin(-r20)
         rx = atan2(r21, r22)
+        # Next to gimbal lock r00, r10, r21 and r22 are mostly round-off. Taking rz from R * R_x(-rx)
+        # keeps rz consistent with whatever rx we got.
+        rz = atan2(sin(rx) * r02 - cos(rx) * r01, cos(rx) * r11 - sin(rx) * r12)
 
     return EulerXYZ(rx, ry, rz)
 
-- 
2.43.0


From 2a34a8d0d657d13409ee1c54471ebe9e794e7ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 04/55] fix: sign of the rotation matrix derivative beyond a
 half turn

---
 rainbow/math/expmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/math/expmap.py b/rainbow/math/expmap.py
index cc6dc60..5a7708e 100644
--- a/rainbow/math/expmap.py
+++ b/rainbow/math/expmap.py
@@ -224,7 +224,7 @@ def dRdv_i(v, i):
     :param i:
     :return:
     """
-    q = exp(v)
+    q = exp(v, False)  # dQdv_i differentiates v as it is given, q must belong to the same v.
     dQdvi = dQdv_i(v, i)
     dRdvi = __dRdv_i(q, dQdvi)
     return dRdvi
\ No newline at end of file
-- 
2.43.0


From 67e130d621bab58f93c7c1762e5baaef8b47c9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 05/55] fix: accept fractions and exponents with leading zeros
 in number strings

---
 rainbow/util/parse_string.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rainbow/util/parse_string.py b/rainbow/util/parse_string.py
index da2b387..5377b68 100644
--- a/rainbow/util/parse_string.py
+++ b/rainbow/util/parse_string.py
@@ -8,11 +8,12 @@ import pyparsing as pp
 '''
 
 Integer          = pp.Regex("([1-9]\d*|0)")
-Float            = Integer + "." + Integer
+Float            = pp.Regex(r"([1-9]\d*|0)\.\d+")
 Number_unsigned  = (Float | Integer)
 Number_signed    = ("-" + Number_unsigned | Number_unsigned)
-Number_pos_scientific  = Number_signed + "e" + "+" + Number_unsigned
-Number_neg_scientific  = Number_signed + "e" + "-" + Number_unsigned
+Exponent         = pp.Regex(r"\d+(\.\d+)?")
+Number_pos_scientific  = Number_signed + "e" + "+" + Exponent
+Number_neg_scientific  = Number_signed + "e" + "-" + Exponent
 Number_scientific      = (Number_pos_scientific | Number_neg_scientific)
 Number                 = (Number_scientific | Number_signed)
 Letters  = pp.Word(pp.alphas)
-- 
2.43.0


From 623f52f72b7ac543ac044feea2ed764804fcff21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 06/55] fix: reject number lists that only parse in part

---
 rainbow/math/quaternion.py | 2 +-
 rainbow/math/vector3.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rainbow/math/quaternion.py b/rainbow/math/quaternion.py
index 02a1af9..fe395bf 100644
--- a/rainbow/math/quaternion.py
+++ b/rainbow/math/quaternion.py
@@ -58,7 +58,7 @@ def from_string(value):
         axis = V3.from_string(axis_str)
         return Ru(radians, axis)
 
-    string_2_array =  np.fromstring(value_lower.strip("[]"), dtype=np.float64, sep=",")
+    string_2_array = np.array([float(x) for x in value_lower.strip("[]").split(",")], dtype=np.float64)
 
     assert len(string_2_array) >= 4
 
diff --git a/rainbow/math/vector3.py b/rainbow/math/vector3.py
index bc4718c..8c5ffc9 100644
--- a/rainbow/math/vector3.py
+++ b/rainbow/math/vector3.py
@@ -53,7 +53,7 @@ def from_string(value):
         (lower_str, upper_str) = value_lower.strip("rand:").split(":")
         return rand(float(lower_str), float(upper_str))
     
-    string_2_array =  np.fromstring(value_lower.strip("[]"), dtype=np.float64, sep=",")
+    string_2_array = np.array([float(x) for x in value_lower.strip("[]").split(",")], dtype=np.float64)
 
     assert len(string_2_array) >= 3
 
-- 
2.43.0


From 6933c986f7a911a17d6d409665c0b0d0e3a633aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 07/55] fix: direction of most variance is a column of the
 eigenvector matrix

---
 rainbow/math/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/math/functions.py b/rainbow/math/functions.py
index 8b2c133..6068a15 100644
--- a/rainbow/math/functions.py
+++ b/rainbow/math/functions.py
@@ -45,4 +45,4 @@ def direction_of_most_variance(P):
     """
     _, values, vectors = PCA(P)            # Returns eigenvalue not sorted
     largest_eigenv_idx = np.argmax(values)
-    return vectors[largest_eigenv_idx]
+    return vectors[:, largest_eigenv_idx]
-- 
2.43.0


From 1d0b4ec775df19a1c69ced383ca938776a265098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 08/55] fix: ortonormalize must not overwrite the matrix it is
 given

---
 rainbow/math/matrix3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rainbow/math/matrix3.py b/rainbow/math/matrix3.py
index 6e09ba1..f5b6e37 100644
--- a/rainbow/math/matrix3.py
+++ b/rainbow/math/matrix3.py
@@ -53,8 +53,8 @@ def star(v):
 
 
 def ortonormalize(A):
-    row0 = A[0, :]
-    row1 = A[1, :]
+    row0 = np.array(A[0, :], dtype=np.float64)
+    row1 = np.array(A[1, :], dtype=np.float64)
     l0 = np.linalg.norm(row0)
     if l0 > 0.0:
         row0 /= l0
-- 
2.43.0


From 4839f10b7e90d40d1fda572b7d157734740e7c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 09/55] fix: sign of a negative leading term in
 polynomial.to_str

---
 rainbow/math/polynomial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rainbow/math/polynomial.py b/rainbow/math/polynomial.py
index 7a096fd..6158188 100644
--- a/rainbow/math/polynomial.py
+++ b/rainbow/math/polynomial.py
@@ -314,8 +314,8 @@ def to_str(P: Poly) -> str:
         if len(polynomial) > 0:
             if len(term) > 0:
                 polynomial += " " + sign + " " + term
-        else:
-            polynomial = term
+        elif len(term) > 0:
+            polynomial = "-" + term if sign == "-" else term
     return polynomial
 
 
-- 
2.43.0


From 4c369355860b950dd1d19a78b0c14b1603ce92bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:04 +0000
Subject: [PATCH 10/55] fix: interpolation weights of grid gradients

---
 rainbow/geometry/grid3.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rainbow/geometry/grid3.py b/rainbow/geometry/grid3.py
index 2f052c2..d7cea98 100644
--- a/rainbow/geometry/grid3.py
+++ b/rainbow/geometry/grid3.py
@@ -206,9 +206,9 @@ def get_gradient(grid, p):
     d101 = grid.get_node_value(i + 1, j, k + 1)
     d110 = grid.get_node_value(i + 1, j + 1, k)
     d111 = grid.get_node_value(i + 1, j + 1, k + 1)
-    s = (p[0] - (i * grid.spacing[0] + grid.min_coord[0])) / grid.min_coord[0]
-    t = (p[1] - (j * grid.spacing[1] + grid.min_coord[1])) / grid.min_coord[1]
-    u = (p[2] - (k * grid.spacing[2] + grid.min_coord[2])) / grid.min_coord[2]
+    s = (p[0] - (i * grid.spacing[0] + grid.min_coord[0])) / grid.spacing[0]
+    t = (p[1] - (j * grid.spacing[1] + grid.min_coord[1])) / grid.spacing[1]
+    u = (p[2] - (k * grid.spacing[2] + grid.min_coord[2])) / grid.spacing[2]
 
     #
     #             011
-- 
2.43.0


From bba33b7475aef02e9cddd428d7f9a52f275e984a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 11/55] fix: interior points whose barycentric coordinates sum
 to one plus round-off

---
 rainbow/geometry/barycentric.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rainbow/geometry/barycentric.py b/rainbow/geometry/barycentric.py
index 23cccd4..2319fcf 100644
--- a/rainbow/geometry/barycentric.py
+++ b/rainbow/geometry/barycentric.py
@@ -1,6 +1,9 @@
 import rainbow.math.matrix3 as M3
 import numpy as np
 
+# The coordinates of a point sum to one, but only up to round-off when they have been computed.
+_SUM_TOLERANCE = 1e-9
+
 
 def compute_barycentric_edge(x1, x2, p):
     """
@@ -149,7 +152,7 @@ def is_inside_edge(w1, w2) -> bool:
         return False
     if w2 > 1.0:
         return False
-    if w1 + w2 > 1.0:
+    if w1 + w2 > 1.0 + _SUM_TOLERANCE:
         return False
     if w1 + w2 < 0.0:
         return False
@@ -180,7 +183,7 @@ def is_inside_triangle(w1, w2, w3) -> bool:
         return False
     if w3 > 1.0:
         return False
-    if w1 + w2 + w3 > 1.0:
+    if w1 + w2 + w3 > 1.0 + _SUM_TOLERANCE:
         return False
     if w1 + w2 + w3 < 0.0:
         return False
@@ -217,7 +220,7 @@ def is_inside_tetrahedron(w1, w2, w3, w4) -> bool:
         return False
     if w4 > 1.0:
         return False
-    if w1 + w2 + w3 + w4 > 1.0:
+    if w1 + w2 + w3 + w4 > 1.0 + _SUM_TOLERANCE:
         return False
     if w1 + w2 + w3 + w4 < 0.0:
         return False
-- 
2.43.0


From 9f6bde91f5ec536a240fdc80587dc20421b32e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 12/55] fix: interior sample points of a tetrahedron have four
 positive coordinates

---
 rainbow/geometry/tetrahedron.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/geometry/tetrahedron.py b/rainbow/geometry/tetrahedron.py
index 6848b86..cfb8718 100644
--- a/rainbow/geometry/tetrahedron.py
+++ b/rainbow/geometry/tetrahedron.py
@@ -240,4 +240,4 @@ def generate_interior_sample_points(N):
              iso-parametric tetrahedron.
     """
     S = generate_sample_points(N)
-    return S[np.count_nonzero(S, axis=1) == 3]
+    return S[np.count_nonzero(S, axis=1) == 4]
-- 
2.43.0


From b9ebe8ae1b3ffbdb244644614430cda681020a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 13/55] fix: orientation of one corner tetrahedron in
 create_loop_subdivision

---
 rainbow/geometry/volume_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/geometry/volume_mesh.py b/rainbow/geometry/volume_mesh.py
index 3ba8ee0..a8f4817 100644
--- a/rainbow/geometry/volume_mesh.py
+++ b/rainbow/geometry/volume_mesh.py
@@ -210,7 +210,7 @@ def create_loop_subdivision(V, T):
         jm, pjm = create_midpoint(j, m, pj, pm, lut, offset)
         km, pkm = create_midpoint(k, m, pk, pm, lut, offset)
         T[e] = [im, jm, km, m]
-        T[last] = [ij, ik, im, i]
+        T[last] = [ij, im, ik, i]
         T[last + 1] = [ij, jk, jm, j]
         T[last + 2] = [ik, km, jk, k]
         T[last + 3] = [ik, im, ij, jm]
-- 
2.43.0


From 78913701ba64210b218a14a8fd8706265e5f63e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 14/55] fix: spatial hash insertion must not return objects of
 earlier time stamps or the inserted one

---
 rainbow/geometry/spatial_hashing.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rainbow/geometry/spatial_hashing.py b/rainbow/geometry/spatial_hashing.py
index 68df209..031d56e 100644
--- a/rainbow/geometry/spatial_hashing.py
+++ b/rainbow/geometry/spatial_hashing.py
@@ -189,8 +189,10 @@ class HashGird:
             self.hash_tbale[hv] = HashCell()
             self.hash_tbale[hv].add((tri_idx, body_idx, tri_aabb), time_stamp)
         else:
-            overlaps = self.hash_tbale[hv].object_list
-            self.hash_tbale[hv].add((tri_idx, body_idx, tri_aabb), time_stamp)
+            cell = self.hash_tbale[hv]
+            if cell.time_stamp >= time_stamp:  # Older content is cleared lazily by add
+                overlaps = list(cell.object_list)
+            cell.add((tri_idx, body_idx, tri_aabb), time_stamp)
         return overlaps
     
     @classmethod
-- 
2.43.0


From 965c96af61c7be01fd53a23e93b9821d790201af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:24 +0000
Subject: [PATCH 15/55] fix: principal axes of solids with coinciding moments
 of inertia are orthogonal

---
 rainbow/simulators/prox_rigid_bodies/mass.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/mass.py b/rainbow/simulators/prox_rigid_bodies/mass.py
index a35d75c..97e6a02 100644
--- a/rainbow/simulators/prox_rigid_bodies/mass.py
+++ b/rainbow/simulators/prox_rigid_bodies/mass.py
@@ -301,7 +301,9 @@ def __rotate_to_model_space_orientation(prop: MassProperties) -> tuple[np.ndarra
         prop.Izz,
     )
 
-    d, R = np.linalg.eig(A)
+    # The inertia tensor is symmetric, eigh guarantees real and mutually orthogonal eigenvectors even
+    # when some of the principal moments coincide.
+    d, R = np.linalg.eigh(A)
 
     permutations = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [2, 0, 1], [1, 2, 0], [2, 1, 0]]
 
-- 
2.43.0


From 6f17ca53c32169dc6a0e41dc256f37e87923e33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:14 +0000
Subject: [PATCH 16/55] fix: keep the mass properties of small bodies

---
 rainbow/simulators/prox_rigid_bodies/mass.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/mass.py b/rainbow/simulators/prox_rigid_bodies/mass.py
index 97e6a02..600b9aa 100644
--- a/rainbow/simulators/prox_rigid_bodies/mass.py
+++ b/rainbow/simulators/prox_rigid_bodies/mass.py
@@ -267,16 +267,13 @@ def compute_mass_properties(V: np.ndarray, T: np.ndarray, density: float) -> Mas
         raise RuntimeError(
             "compute_mass_properties(): internal error, bad mesh encountered"
         )
-    # We clamp computed values to zero if they are very tiny numbers.
+    # We clamp computed values to zero if they are very tiny numbers compared to the size of the solid.
     # This is mainly due to making inertia tensor more human-readable when printing it.
-    too_small = 1.0e-10
-    prop.mass = prop.mass if prop.mass > too_small else 0.0
-    prop.Ixx = prop.Ixx if prop.Ixx > too_small else 0.0
-    prop.Iyy = prop.Iyy if prop.Iyy > too_small else 0.0
-    prop.Izz = prop.Izz if prop.Izz > too_small else 0.0
+    too_small = 1.0e-12 * max(prop.Ixx, prop.Iyy, prop.Izz)
     prop.Ixy = prop.Ixy if abs(prop.Ixy) > too_small else 0.0
     prop.Iyz = prop.Iyz if abs(prop.Iyz) > too_small else 0.0
     prop.Ixz = prop.Ixz if abs(prop.Ixz) > too_small else 0.0
+    too_small = 1.0e-12 * np.sqrt(max(T2) / T0)
     prop.x = prop.x if abs(prop.x) > too_small else 0.0
     prop.y = prop.y if abs(prop.y) > too_small else 0.0
     prop.z = prop.z if abs(prop.z) > too_small else 0.0
@@ -348,7 +345,7 @@ def __translate_to_body_space_origin(prop_model: MassProperties) -> tuple[np.nda
     prop_body.Iyy = prop_model.Iyy - m * (x * x + z * z)
     prop_body.Izz = prop_model.Izz - m * (x * x + y * y)
 
-    too_small = 1.0e-10
+    too_small = 1.0e-12 * max(prop_body.Ixx, prop_body.Iyy, prop_body.Izz)
     prop_body.Ixy = prop_model.Ixy + m * (x * y)
     prop_body.Ixy = prop_body.Ixy if np.abs(prop_body.Ixy) > too_small else 0.0
     prop_body.Ixz = prop_model.Ixz + m * (x * z)
-- 
2.43.0


From 0ac29fdcb40a21dc61d075756c1d48eea5064649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:17 +0000
Subject: [PATCH 17/55] fix: contact points near the surface of a rigid body
 are inside its distance field

---
 rainbow/simulators/prox_rigid_bodies/collision_detection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/collision_detection.py b/rainbow/simulators/prox_rigid_bodies/collision_detection.py
index 5ec9c91..db4f09a 100644
--- a/rainbow/simulators/prox_rigid_bodies/collision_detection.py
+++ b/rainbow/simulators/prox_rigid_bodies/collision_detection.py
@@ -169,7 +169,7 @@ def _compute_contacts(engine: Engine, bodyA: RigidBody, bodyB: RigidBody, triang
         # We have now optimized for the deepest penetrating point on the triangle, and now we can use this
         # point and the SDF from body B to generate a contact point between body A and body B. First we test
         # if our triangle point is even inside axis aligned bounding box (AABB) around the SDF of body B.
-        if GRID.is_inside(bodyB.shape.grid, x_i):
+        if GRID.is_inside(bodyB.shape.grid, x_i, boundary=0.0):
             # If we are inside the AABB then we look up the actual SDF value at the point. If the SDF value
             # is non-positive then we know we have a "true" contact point.
             phi = GRID.get_value(bodyB.shape.grid, x_i)
-- 
2.43.0


From 6a88db0e680e1e6b6586ed82a8bd0bd6535eb329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:08 +0000
Subject: [PATCH 18/55] fix: deepest point search compares descent within the
 triangle, not distance from the body origin

---
 .../prox_rigid_bodies/collision_detection.py        | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/collision_detection.py b/rainbow/simulators/prox_rigid_bodies/collision_detection.py
index db4f09a..5eee2e9 100644
--- a/rainbow/simulators/prox_rigid_bodies/collision_detection.py
+++ b/rainbow/simulators/prox_rigid_bodies/collision_detection.py
@@ -148,21 +148,20 @@ def _compute_contacts(engine: Engine, bodyA: RigidBody, bodyB: RigidBody, triang
             # Pick the triangle vertex 's_i' which minimizes the dot product with
             # the current gradient at 'x_i'. That is the vertex with "largest" descent.
             objectives = [
-                np.dot(s_i, GRID.get_gradient(bodyB.shape.grid, x_i)) for s_i in p_bs
+                np.dot(s_i - x_i, GRID.get_gradient(bodyB.shape.grid, x_i)) for s_i in p_bs
             ]
             vertex = np.argmin(objectives)
             s_i = p_bs[vertex]
+            # Before moving we check for convergence to see if we can make an early exit. The objective is the
+            # directional derivative from 'x_i' towards the corner point. If the smallest one is not negative
+            # then no corner point offers a descent direction and 'x_i' is the minimizer.
+            if objectives[vertex] >= -engine.params.contact_optimization_tolerance:
+                break
             # Knowing that 's_i' has a "better" descent direction we update 'x_i' by "dragging" it
             # in the direction of 's_i'. The step-size that we update 'x_i' with is given by alpha.
             # We decrease the value of alpha as we iterate to ensure we do not overstep our minimizer.
             alpha = 2 / (i + 2)
             x_i = x_i + alpha * (s_i - x_i)
-            # Before continuing to the next iterate we check for convergence to see if we can make
-            # an early exit. We use a simple tolerance test. Note that our "objective" is more like the directional
-            # derivative. Hence, if the smallest directional derivative gets slightly positive then it means we will
-            # move away from the "minimizer" and we can not find any other corner point with a better descent direction.
-            if objectives[vertex] > engine.params.contact_optimization_tolerance:
-                break
         if profiling_on:
             contact_optimization_timer.end()
             contact_point_generation_timer.start()
-- 
2.43.0


From 3996f5ba081ea97790ac7208784fe412f463d711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:57 +0000
Subject: [PATCH 19/55] fix: a rolled back iterate of the Gauss-Seidel solver
 is no sign of convergence

---
 rainbow/simulators/prox_rigid_bodies/gauss_seidel_solver.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rainbow/simulators/prox_rigid_bodies/gauss_seidel_solver.py b/rainbow/simulators/prox_rigid_bodies/gauss_seidel_solver.py
index 00323be..e329b81 100644
--- a/rainbow/simulators/prox_rigid_bodies/gauss_seidel_solver.py
+++ b/rainbow/simulators/prox_rigid_bodies/gauss_seidel_solver.py
@@ -45,6 +45,8 @@ def solve(
 
         # Keep track of the overall merit across all problems we are solving
         global_merit = 0
+        # Remember if any of the problems had to roll back its iterate
+        diverged = False
 
         for index, problem in enumerate(Problems):
             last_merit = last_merit_values[index]
@@ -59,6 +61,7 @@ def solve(
                 problem.change_r_factors(nu_reduce)
                 #  Next, we roll back the current iterate to the last known good solution
                 problem.rollback_iterate()
+                diverged = True
                 # Update the global merit, so we later can test if all problems have converged
                 global_merit = np.maximum(global_merit, last_merit)
             else:
@@ -74,6 +77,9 @@ def solve(
 
         if profiling_on:
             performance_data[prefix + "residuals"][iteration] = global_merit
+        # A rolled back iterate says nothing about convergence, try again with the reduced R-factor
+        if diverged:
+            continue
         # Test for absolute convergence
         if global_merit < engine.params.absolute_tolerance:
             if profiling_on:
-- 
2.43.0


From 526dfeed685ba774cca87510cdc50cbd603c3a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:02 +0000
Subject: [PATCH 20/55] fix: sign of the error vector of hinges in
 pre-stabilization

---
 rainbow/simulators/prox_rigid_bodies/constraints/hinges.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/constraints/hinges.py b/rainbow/simulators/prox_rigid_bodies/constraints/hinges.py
index e8e4491..afe1a30 100644
--- a/rainbow/simulators/prox_rigid_bodies/constraints/hinges.py
+++ b/rainbow/simulators/prox_rigid_bodies/constraints/hinges.py
@@ -208,9 +208,9 @@ class Hinges(Problem):
 
             n_c = Q.rotate(hinge.child.q, hinge.axis_c)
 
-            u = V3.cross(n_p, n_c)
+            u = V3.cross(n_c, n_p)
 
-            g[offset:offset + 3] = (r_c - r_p)
+            g[offset:offset + 3] = (r_p - r_c)
             g[offset + 3] = t_p.dot(u)
             g[offset + 4] = b_p.dot(u)
         rate = engine.params.gap_reduction / dt
-- 
2.43.0


From 1956e89eb07b0549dde07ac48db2967f5ac9a90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:52 +0000
Subject: [PATCH 21/55] fix: no extra rigid body time step from round-off in
 the remaining time

---
 rainbow/simulators/prox_rigid_bodies/api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/api.py b/rainbow/simulators/prox_rigid_bodies/api.py
index 53c3bfb..ed61da1 100644
--- a/rainbow/simulators/prox_rigid_bodies/api.py
+++ b/rainbow/simulators/prox_rigid_bodies/api.py
@@ -687,7 +687,8 @@ def simulate(engine: Engine, T: float, profiling_on: bool = False) -> None:
     if engine.stepper is None:
         raise ValueError("A time-stepper must be initialized")
     T_left = T
-    while T_left:
+    # Round-off in the remaining time must not cause an extra time step of vanishing size.
+    while T_left > 1e-9 * engine.params.time_step:
         dt = min(T_left, engine.params.time_step)
         engine.stepper.step(dt, engine, profiling_on)
         T_left -= dt
-- 
2.43.0


From 5bb53b449438880320b8a258026345d2b0d203a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:02 +0000
Subject: [PATCH 22/55] fix: potential energy counts the gravity forces
 attached to each rigid body only

---
 .../prox_rigid_bodies/state_storage.py          | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/state_storage.py b/rainbow/simulators/prox_rigid_bodies/state_storage.py
index 493f32e..5e05b00 100644
--- a/rainbow/simulators/prox_rigid_bodies/state_storage.py
+++ b/rainbow/simulators/prox_rigid_bodies/state_storage.py
@@ -216,20 +216,9 @@ class StateStorage:
             I_bf = body.inertia
             I_wcs = MASS.update_inertia_tensor(R, I_bf)
 
-            G = V3.make(0, 0, 0)
-            has_gravity = False
-            # TODO 2024-07-28 Kenny: The engine is the only place that can tells us about forces attached to a rigid
-            #  body.
-            for force in engine.forces:
-                if isinstance(engine.forces[force], Gravity):
-                    gravity_force = engine.forces[force]
-                    G += gravity_force.up * gravity_force.g
-                    has_gravity = True
-            if has_gravity:
-                up = V3.unit(G)
-                g = V3.norm(G)
-                h = up.dot(r)
-                potential += m * g * h
+            for force in body.forces:
+                if isinstance(force, Gravity):
+                    potential += m * force.g * force.up.dot(r)
 
             wIw = np.dot(w, np.dot(I_wcs, w))
             kinetic += 0.5 * (m * (v.dot(v)) + wIw)
-- 
2.43.0


From bf2d5fcf6b28a40650310ba18d10b6f85a257f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:27 +0000
Subject: [PATCH 23/55] fix: surface interactions keep their own copy of the
 friction coefficients

---
 rainbow/simulators/prox_rigid_bodies/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/api.py b/rainbow/simulators/prox_rigid_bodies/api.py
index ed61da1..c0c44f8 100644
--- a/rainbow/simulators/prox_rigid_bodies/api.py
+++ b/rainbow/simulators/prox_rigid_bodies/api.py
@@ -669,7 +669,7 @@ def create_surfaces_interaction(engine, A: str, B: str, epsilon: float, mu) -> N
     key = tuple(tmp)
     behaviour = SurfacesInteraction()
     behaviour.epsilon = epsilon
-    behaviour.mu = mu
+    behaviour.mu = np.array(mu, dtype=np.float64)
     engine.surfaces_interactions.storage[key] = behaviour
 
 
-- 
2.43.0


From 224f0241174eb48e3b506477ae3ff7fdbe3e215a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:23 +0000
Subject: [PATCH 24/55] fix: prox_ellipsoid takes an engine and can not be
 compiled by numba

---
 rainbow/simulators/proximal_contact/proximal_operators.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rainbow/simulators/proximal_contact/proximal_operators.py b/rainbow/simulators/proximal_contact/proximal_operators.py
index e44c652..88a5a37 100644
--- a/rainbow/simulators/proximal_contact/proximal_operators.py
+++ b/rainbow/simulators/proximal_contact/proximal_operators.py
@@ -39,7 +39,6 @@ def prox_origin(z_s, z_t, z_tau, mu, x_n):
     return 0.0, 0.0, 0.0
 
 
-@nb.njit(cache=True)
 def prox_ellipsoid(engine, z_s, z_t, z_tau, mu_s, mu_t, mu_tau, x_n):
     # 2022-05-09 Kenny TODO: This interface is currently not compatible with
     #                   the friction_solver interface that we assume in the
-- 
2.43.0


From 0a43e8339667711b6f57f02722bde2604eed4c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:23 +0000
Subject: [PATCH 25/55] fix: prox_ellipsoid with zero friction along some of
 the axes

---
 .../simulators/proximal_contact/proximal_operators.py    | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rainbow/simulators/proximal_contact/proximal_operators.py b/rainbow/simulators/proximal_contact/proximal_operators.py
index 88a5a37..1e7f577 100644
--- a/rainbow/simulators/proximal_contact/proximal_operators.py
+++ b/rainbow/simulators/proximal_contact/proximal_operators.py
@@ -65,6 +65,15 @@ def prox_ellipsoid(engine, z_s, z_t, z_tau, mu_s, mu_t, mu_tau, x_n):
     if mu_s == mu_t and mu_s == mu_tau:
         return prox_sphere(z_s, z_t, z_tau, mu_s, x_n)
 
+    # A component with zero radius is projected to zero, any positive radius will keep it there
+    mu_max = max(mu_s, mu_t, mu_tau)
+    if mu_s == 0:
+        z_s, mu_s = 0.0, mu_max
+    if mu_t == 0:
+        z_t, mu_t = 0.0, mu_max
+    if mu_tau == 0:
+        z_tau, mu_tau = 0.0, mu_max
+
     a = mu_s * x_n
     b = mu_t * x_n
     c = mu_tau * x_n
-- 
2.43.0


From b1f48584ea848a748fdfae5a4f39a378931af918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:19 +0000
Subject: [PATCH 26/55] fix: parallel Gauss-Seidel sweeps with a single thread

---
 rainbow/simulators/proximal_contact/gauss_seidel_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/proximal_contact/gauss_seidel_solver.py b/rainbow/simulators/proximal_contact/gauss_seidel_solver.py
index 8d16276..235f7f2 100644
--- a/rainbow/simulators/proximal_contact/gauss_seidel_solver.py
+++ b/rainbow/simulators/proximal_contact/gauss_seidel_solver.py
@@ -99,7 +99,7 @@ class ParallelGaussSeidelSolver(SolverInterface):
         color_groups = BLOCKING.greedy_graph_coloring(G)
 
         # Set the number of threads
-        nb.set_num_threads(4 if (nb.config.NUMBA_NUM_THREADS // 2) >= 4 else nb.config.NUMBA_NUM_THREADS // 2)
+        nb.set_num_threads(max(1, min(4, nb.config.NUMBA_NUM_THREADS // 2)))
 
         # Compute the new contact force
         w0 = self.WJT.dot(self.x)
-- 
2.43.0


From c921cfd2762fe3a8b358bdeafa76a44b7f16d9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:19 +0000
Subject: [PATCH 27/55] fix: parallel Gauss-Seidel sweep uses the changes of
 all groups processed before

---
 rainbow/simulators/proximal_contact/gauss_seidel_solver.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rainbow/simulators/proximal_contact/gauss_seidel_solver.py b/rainbow/simulators/proximal_contact/gauss_seidel_solver.py
index 235f7f2..543739b 100644
--- a/rainbow/simulators/proximal_contact/gauss_seidel_solver.py
+++ b/rainbow/simulators/proximal_contact/gauss_seidel_solver.py
@@ -105,10 +105,8 @@ class ParallelGaussSeidelSolver(SolverInterface):
         w0 = self.WJT.dot(self.x)
         delta_ws = np.zeros((self.WJT.shape[1]//4, w0.shape[0]), dtype=np.float64)
         for color_group in color_groups.values():
-            w = w0.copy()
-            block_start, _ = color_group[0]
-            for i in range(block_start // 4):
-                w += delta_ws[i]
+            # The blocks of the groups already processed may be anywhere in the index range
+            w = w0 + np.sum(delta_ws, axis=0)
 
             self.x, delta_ws = sweep_worker(np.array(color_group), 
                                             self.J.toarray(), 
-- 
2.43.0


From 4ca604635dce7080f279dafd4a30fcaf3b71ff80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:38 +0000
Subject: [PATCH 28/55] fix: corotational model used the array version of the
 polar decomposition on a single matrix

---
 rainbow/simulators/prox_soft_bodies/mechanics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/mechanics.py b/rainbow/simulators/prox_soft_bodies/mechanics.py
index 62d695b..15229b7 100644
--- a/rainbow/simulators/prox_soft_bodies/mechanics.py
+++ b/rainbow/simulators/prox_soft_bodies/mechanics.py
@@ -211,7 +211,7 @@ class COR:
         :param mu_in:       The second Lame parameter
         :return:            The first Piola-Kirchhoff stress tensor
         """
-        R, S = M3.polar_decomposition_array(F)
+        R, S = M3.polar_decomposition(F)
         return (lambda_in * np.trace(S - np.eye(3))) * R + (2 * mu_in) * (F - R)
 
     @staticmethod
@@ -222,7 +222,7 @@ class COR:
         :param mu_in:       The second Lame parameter
         :return:            The energy density.
         """
-        R, S = M3.polar_decomposition_array(F)
+        R, S = M3.polar_decomposition(F)
         #  mu ||F - R||_F^2 + (lambda/2) tr^2 (R^T F - I)
         return mu_in * np.square(np.linalg.norm(F - R, ord="fro")) + (
             lambda_in / 2
-- 
2.43.0


From fbb239b086701ae63a25d6635ff4f74d2a647e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:38 +0000
Subject: [PATCH 29/55] fix: stable Neo-Hookean energy uses the natural
 logarithm, as its stress does

---
 rainbow/simulators/prox_soft_bodies/mechanics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_soft_bodies/mechanics.py b/rainbow/simulators/prox_soft_bodies/mechanics.py
index 15229b7..309e3a8 100644
--- a/rainbow/simulators/prox_soft_bodies/mechanics.py
+++ b/rainbow/simulators/prox_soft_bodies/mechanics.py
@@ -159,7 +159,7 @@ class SNH:
         return (
             0.5 * mu_ * (I_C - 3)
             + 0.5 * lambda_ * np.square(J - alpha)
-            - 0.5 * mu_ * np.log2(I_C + 1)
+            - 0.5 * mu_ * np.log(I_C + 1)
         )
 
 
-- 
2.43.0


From 0a5f3d28addd20da72a87e4eafcf7e7fe8773b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:38 +0000
Subject: [PATCH 30/55] fix: round-off in the remaining time caused an extra
 soft body step of vanishing size

---
 rainbow/simulators/prox_soft_bodies/api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_soft_bodies/api.py b/rainbow/simulators/prox_soft_bodies/api.py
index 9585287..88d228b 100644
--- a/rainbow/simulators/prox_soft_bodies/api.py
+++ b/rainbow/simulators/prox_soft_bodies/api.py
@@ -398,7 +398,8 @@ def simulate(engine, T: float, debug_on: bool = False) -> None:
     if engine.stepper is None:
         engine.stepper = SOLVER.SemiImplicitStepper(engine, debug_on)
     T_left = T
-    while T_left:
+    # Round-off in the remaining time must not cause an extra time step of vanishing size.
+    while T_left > 1e-9 * engine.params.time_step:
         dt = min(T_left, engine.params.time_step)
         engine.stepper.step(dt, engine, debug_on)
         T_left -= dt
-- 
2.43.0


From 606eb15923a7162a02bda3c2a52ea21c6e18ab79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:38 +0000
Subject: [PATCH 31/55] fix: traction forces were half of the applied load

---
 rainbow/simulators/prox_soft_bodies/solver.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/solver.py b/rainbow/simulators/prox_soft_bodies/solver.py
index e1dc018..824c523 100644
--- a/rainbow/simulators/prox_soft_bodies/solver.py
+++ b/rainbow/simulators/prox_soft_bodies/solver.py
@@ -337,19 +337,21 @@ class Native:
             #   L = 1 / 24  *  [ 2*I_3x3    I_3x3   I_3x3;
             #                      I_3x3  2*I_3x3   I_3x3;
             #                      I_3x3    I_3x3 2*I_3x3; ]
+            #
+            #  on the reference triangle, which has area 1/2. On a triangle of area A the integral is 2 A L.
             # --- The spatial load force
             #
-            #     lf(f) = A(f) * L * [li; lj; lk]
+            #     lf(f) = 2 * A(f) * L * [li; lj; lk]
             #
             #   where load = (li,lj,lk) is the applied surface traction.
             load = traction.traction
-            Ft[traction.i] += (A / 24) * (
+            Ft[traction.i] += (A / 12) * (
                 2 * np.dot(Id, load) + np.dot(Id, load) + np.dot(Id, load)
             )
-            Ft[traction.j] += (A / 24) * (
+            Ft[traction.j] += (A / 12) * (
                 np.dot(Id, load) + 2 * np.dot(Id, load) + np.dot(Id, load)
             )
-            Ft[traction.k] += (A / 24) * (
+            Ft[traction.k] += (A / 12) * (
                 np.dot(Id, load) + np.dot(Id, load) + 2 * np.dot(Id, load)
             )
         return Ft
-- 
2.43.0


From 17ea7581b46f36403358569efa35ad4e18fb973d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:01 +0000
Subject: [PATCH 32/55] fix: density and viscosity set after a material was
 assigned reach its bodies

---
 rainbow/simulators/prox_soft_bodies/api.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/rainbow/simulators/prox_soft_bodies/api.py b/rainbow/simulators/prox_soft_bodies/api.py
index 88d228b..c868a2a 100644
--- a/rainbow/simulators/prox_soft_bodies/api.py
+++ b/rainbow/simulators/prox_soft_bodies/api.py
@@ -279,6 +279,16 @@ def set_material(engine, body_name, material_name) -> None:
         raise ValueError("Engine did not have a material with name ", material_name)
     material = engine.materials[material_name]
     body.material_description = material
+    _update_element_arrays(body)
+
+
+def _update_element_arrays(body) -> None:
+    """
+    Recompute the mass and damping element arrays from the material of the given body.
+
+    :param body:           The body to update.
+    :return:               Nothing.
+    """
     body.M_array = SOLVER.Native.compute_mass_element_array(
         body.material_description.rho,
         body.vol0,
@@ -326,6 +336,9 @@ def set_viscosity(engine, material_name, c) -> None:
         raise ValueError("c must be non-negative")
     material = engine.materials[material_name]
     material.c = c
+    for body in engine.bodies.values():
+        if body.material_description is material:
+            _update_element_arrays(body)
 
 
 def set_mass_density(engine, material_name, rho) -> None:
@@ -343,6 +356,9 @@ def set_mass_density(engine, material_name, rho) -> None:
         raise ValueError("rho must be non-negative")
     material = engine.materials[material_name]
     material.rho = rho
+    for body in engine.bodies.values():
+        if body.material_description is material:
+            _update_element_arrays(body)
 
 
 def set_constitutive_model(engine, material_name, model) -> None:
-- 
2.43.0


From aa40e758038510600a0525e7a5d5836c19fd18ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:01 +0000
Subject: [PATCH 33/55] fix: a soft body that can not be created is not left
 behind half built

---
 rainbow/simulators/prox_soft_bodies/api.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/api.py b/rainbow/simulators/prox_soft_bodies/api.py
index c868a2a..9d007b9 100644
--- a/rainbow/simulators/prox_soft_bodies/api.py
+++ b/rainbow/simulators/prox_soft_bodies/api.py
@@ -37,7 +37,6 @@ def create_soft_body(engine, body_name, V, T) -> None:
     # Create body
     body = SoftBody(body_name)
     body.idx = len(engine.bodies)
-    engine.bodies[body_name] = body
 
     # Improve spatial/memory layout of volume mesh
     axis = FUNC.direction_of_most_variance(V)
@@ -97,7 +96,9 @@ def create_soft_body(engine, body_name, V, T) -> None:
     body.offset = engine.number_of_nodes
     engine.number_of_nodes += len(body.x0)
 
-    
+    # Nothing can fail from here on, so the engine never holds a body that is only partly set up.
+    engine.bodies[body_name] = body
+
 
 def create_dirichlet_conditions(engine, body_name, phi) -> None:
     """
-- 
2.43.0


From 0ad07c2a1d631d22e392b8cf7f492399594181a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:01 +0000
Subject: [PATCH 34/55] fix: contact normals of rotated or deformed soft bodies

---
 rainbow/simulators/prox_soft_bodies/collision_detection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_soft_bodies/collision_detection.py b/rainbow/simulators/prox_soft_bodies/collision_detection.py
index 49723f4..7e3282b 100644
--- a/rainbow/simulators/prox_soft_bodies/collision_detection.py
+++ b/rainbow/simulators/prox_soft_bodies/collision_detection.py
@@ -263,7 +263,8 @@ def _xform_contact_to_world(p, n, XA, XB, X0B):
     omegaA = BC.compute_barycentric_tetrahedron(XA[0], XA[1], XA[2], XA[3], p)
     D = XB[0:3] - XB[3]
     D0 = X0B[0:3] - X0B[3]
-    n = D.dot(np.linalg.solve(D0, n))
+    # The rows of D and D0 are edge vectors, so D = D0 F^T, and normals are transformed by the inverse transpose of F.
+    n = np.linalg.solve(D, D0.dot(n))
     return p, n, omegaA, omegaB
 
 
-- 
2.43.0


From c52ceddb974f1e2582f5a0860b3b5e94bdecdbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:01 +0000
Subject: [PATCH 35/55] fix: contact points of small soft bodies were dropped

---
 rainbow/simulators/prox_soft_bodies/collision_detection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_soft_bodies/collision_detection.py b/rainbow/simulators/prox_soft_bodies/collision_detection.py
index 7e3282b..825d01b 100644
--- a/rainbow/simulators/prox_soft_bodies/collision_detection.py
+++ b/rainbow/simulators/prox_soft_bodies/collision_detection.py
@@ -349,7 +349,7 @@ def _compute_contacts(engine, stats, bodyA, bodyB, results, debug_on):
         # We have now optimized for the deepest penetrating point on the triangle, and now we can use this
         # point and the SDF from body B to generate a contact point between body A and body B. First we test
         # if our triangle point is even inside axis aligned bounding box (AABB) around the SDF of body B.
-        if GRID.is_inside(bodyB.grid, x_i):
+        if GRID.is_inside(bodyB.grid, x_i, boundary=0.0):
             # If we are inside the AABB then we look up the actual SDF value at the point. If the SDF value
             # is non-positive then we know we have a "true" contact point.
             phi = GRID.get_value(bodyB.grid, x_i)
-- 
2.43.0


From 94b6d62de42d54f2c0df21137ec0a5337a41fb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:01 +0000
Subject: [PATCH 36/55] fix: soft body contact search stopped early depending
 on where the material space origin is

---
 .../prox_soft_bodies/collision_detection.py         | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/collision_detection.py b/rainbow/simulators/prox_soft_bodies/collision_detection.py
index 825d01b..5dce5b0 100644
--- a/rainbow/simulators/prox_soft_bodies/collision_detection.py
+++ b/rainbow/simulators/prox_soft_bodies/collision_detection.py
@@ -329,20 +329,19 @@ def _compute_contacts(engine, stats, bodyA, bodyB, results, debug_on):
             #  of x_i in a local variable.
             # Pick the triangle vertex 's_i' which minimizes the dot product with
             # the current gradient at 'x_i'. That is the vertex with "largest" descent.
-            objectives = [np.dot(s_i, GRID.get_gradient(bodyB.grid, x_i)) for s_i in P0]
+            objectives = [np.dot(s_i - x_i, GRID.get_gradient(bodyB.grid, x_i)) for s_i in P0]
             vertex = np.argmin(objectives)
             s_i = P0[vertex]
+            # Before moving we check for convergence to see if we can make an early exit. The objective is the
+            # directional derivative from 'x_i' towards the corner point. If the smallest one is not negative
+            # then no corner point offers a descent direction and 'x_i' is the minimizer.
+            if objectives[vertex] >= -engine.params.contact_optimization_tolerance:
+                break
             # Knowing that 's_i' has a "better" descent direction we update 'x_i' by "dragging" it
             # in the direction of 's_i'. The step-size that we update 'x_i' with is given by alpha.
             # We decrease the value of alpha as we iterate to ensure we do not overstep our minimizer.
             alpha = 2 / (i + 2)
             x_i = x_i + alpha * (s_i - x_i)
-            # Before continuing to the next iterate we check for convergence to see if we can make
-            # an early exit. We use a simple tolerance test. Note that our "objective" is more like the directional
-            # derivative. Hence, if the smallest directional derivative gets slightly positive then it means we will
-            # move away from the "minimizer" and we can not find any other corner point with a better descent direction.
-            if objectives[vertex] > engine.params.contact_optimization_tolerance:
-                break
         if debug_on:
             contact_optimization_timer.end()
             contact_point_generation_timer.start()
-- 
2.43.0


From 01e6748f13c424bda166df1271fd4bd5a7aec7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:44 +0000
Subject: [PATCH 37/55] fix: self collision test reported triangles that do not
 intersect and missed others that do

---
 .../prox_soft_bodies/collision_detection.py   | 71 ++++++++++---------
 1 file changed, 39 insertions(+), 32 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/collision_detection.py b/rainbow/simulators/prox_soft_bodies/collision_detection.py
index 5dce5b0..34e7bf7 100644
--- a/rainbow/simulators/prox_soft_bodies/collision_detection.py
+++ b/rainbow/simulators/prox_soft_bodies/collision_detection.py
@@ -53,52 +53,59 @@ def _is_share_vertex(tri1, tri2):
     return len(np.intersect1d(np.array(tri1), np.array(tri2))) > 0
 
 
-def _triangle_intersection(tri1, tri2):
-    """ Test if two triangles of a same body intersect
-        To achieve performance, this function is adapted from Moller-Trumbore intersection algorithm,
-        which is described in https://en.wikipedia.org/wiki/M%C3%B6ller%E2%80%93Trumbore_intersection_algorithm.
-        The idea is to check if the intersection point of the two triangles is inside both triangles.
-        Steps:
-        1. Check if the two triangles are parallel or not, if they are parallel, return False
-        2. Check if the intersection point is inside the first triangle, if not, return False
-        3. Check if the intersection point is inside the second triangle, if inside, return True, otherwise return False
-        
+def _segment_triangle_intersection(p, q, tri):
+    """ Test if a line segment intersects a triangle. This is the Moller-Trumbore intersection algorithm,
+        https://en.wikipedia.org/wiki/M%C3%B6ller%E2%80%93Trumbore_intersection_algorithm,
+        limited to the extent of the segment.
+
     Args:
-        tri1 (ArrayLike): coordinates of the first triangle
-        tri2 (ArrayLike): coordinates of the second triangle
+        p (ArrayLike): coordinates of the first end of the segment
+        q (ArrayLike): coordinates of the second end of the segment
+        tri (ArrayLike): coordinates of the triangle
 
     Returns:
-        bool: True if the two triangles intersect, False otherwise
+        bool: True if the segment intersects the triangle, False otherwise (also if they are parallel)
     """
-    v1, v2, v3 = tri1
-    u1, u2, u3 = tri2
-
+    v1, v2, v3 = tri
+    d = q - p
     e1 = v2 - v1
     e2 = v3 - v1
-    normal_tri2 = np.cross(u2 - u1, u3 - u1)
-    a = np.dot(e1, normal_tri2)
-
-    # Check if the two triangles are parallel or not
-    if a > -np.finfo(float).eps and a < np.finfo(float).eps:
-        return False 
+    h = np.cross(d, e2)
+    a = np.dot(e1, h)
+    if abs(a) <= np.finfo(float).eps * np.linalg.norm(e1) * np.linalg.norm(h):
+        return False
 
-    # Check the intersection point is inside the triangle(tri1)
-    f = 1.0/a
-    s = u1 - v1
-    u = f * np.dot(s, normal_tri2)
+    s = p - v1
+    u = np.dot(s, h) / a
     if u < 0.0 or u > 1.0:
         return False
 
-    q = np.cross(s, e1)
-    v = f * np.dot(u2 - u1, q)
+    c = np.cross(s, e1)
+    v = np.dot(d, c) / a
     if v < 0.0 or u + v > 1.0:
         return False
 
-    # Check the intersection point is also inside the other triangle(tri2)
-    t = f * np.dot(e2, q)
-    if t > np.finfo(float).eps:
-        return True
+    t = np.dot(e2, c) / a
+    return 0.0 <= t <= 1.0
+
 
+def _triangle_intersection(tri1, tri2):
+    """ Test if two triangles of a same body intersect
+        Two triangles that are not coplanar intersect if and only if an edge of one of them intersects the other one.
+
+    Args:
+        tri1 (ArrayLike): coordinates of the first triangle
+        tri2 (ArrayLike): coordinates of the second triangle
+
+    Returns:
+        bool: True if the two triangles intersect, False otherwise
+    """
+    for i in range(3):
+        j = (i + 1) % 3
+        if _segment_triangle_intersection(tri1[i], tri1[j], tri2):
+            return True
+        if _segment_triangle_intersection(tri2[i], tri2[j], tri1):
+            return True
     return False
 
 
-- 
2.43.0


From b725fa3506d82662fce4b1a6ec66040baadfea98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:44 +0000
Subject: [PATCH 38/55] fix: triangles with a common coordinate value were
 taken for neighbours

---
 rainbow/simulators/prox_soft_bodies/collision_detection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_soft_bodies/collision_detection.py b/rainbow/simulators/prox_soft_bodies/collision_detection.py
index 34e7bf7..027e347 100644
--- a/rainbow/simulators/prox_soft_bodies/collision_detection.py
+++ b/rainbow/simulators/prox_soft_bodies/collision_detection.py
@@ -50,7 +50,7 @@ def _is_share_vertex(tri1, tri2):
     Returns:
         bool: True if the two triangles share a vertex, False otherwise
     """
-    return len(np.intersect1d(np.array(tri1), np.array(tri2))) > 0
+    return any(np.array_equal(v1, v2) for v1 in tri1 for v2 in tri2)
 
 
 def _segment_triangle_intersection(p, q, tri):
-- 
2.43.0


From bb34658b1135fe5fdf533d9ea4b98c119f7644d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:22 +0000
Subject: [PATCH 39/55] fix: post-stabilization of soft bodies

---
 rainbow/simulators/prox_soft_bodies/solver.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/solver.py b/rainbow/simulators/prox_soft_bodies/solver.py
index 824c523..68ac19b 100644
--- a/rainbow/simulators/prox_soft_bodies/solver.py
+++ b/rainbow/simulators/prox_soft_bodies/solver.py
@@ -965,11 +965,11 @@ def apply_post_stabilization(J, WJT, engine, stats, debug_on):
         timer = Timer("apply_post_stabilization")
         timer.start()
     K = len(engine.contact_points)
-    g = np.zeros(3 * K, dtype=np.float64)
+    g = np.zeros(4 * K, dtype=np.float64)  # The contact Jacobian has four rows per contact
     for k in range(K):
         cp = engine.contact_points[k]
         if cp.g < -engine.params.min_gap_value:
-            g[3 * k + 0] = cp.g
+            g[4 * k + 0] = cp.g
 
     # If the gap to correct is all zeros, then just return
     if not g.any():
@@ -986,11 +986,12 @@ def apply_post_stabilization(J, WJT, engine, stats, debug_on):
     # TODO 2021-12-07 Kenny: This seems a bit silly to make this conversion. It should be abstracted
     #  away such that a developer can focus more on the high-level aspects of time integration and
     #  writing solver code.
-    np.reshape(delta_x, (-1, 3))
+    delta_x = np.reshape(delta_x, (-1, 3))
     # ---------------------------------------------------------------------
 
     x = get_position_vector(engine)
     x += delta_x
+    apply_boundary_conditions_on_positions(x, engine)
     set_position_vector(x, engine)
 
     if debug_on:
-- 
2.43.0


From 9c8960712c05e8687769ab8d8ba3a65ae28f9ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:01 +0000
Subject: [PATCH 40/55] fix: fixed soft bodies fell and were pushed around

---
 rainbow/simulators/prox_soft_bodies/solver.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_soft_bodies/solver.py b/rainbow/simulators/prox_soft_bodies/solver.py
index 68ac19b..ab0203d 100644
--- a/rainbow/simulators/prox_soft_bodies/solver.py
+++ b/rainbow/simulators/prox_soft_bodies/solver.py
@@ -820,7 +820,7 @@ def compute_inverse_mass_matrix(engine, stats, debug_on):
     :param engine:      The current engine instance we are working with.
     :param stats:       A dictionary where to add more profiling and timing measurements.
     :param debug_on:    Boolean flag for toggling debug (aka profiling) info on and off.
-    :return:            The global inverse mass matrix.
+    :return:            The global inverse mass matrix. It is zero for the nodes of fixed bodies, nothing moves those.
     """
     timer = None
     if debug_on:
@@ -831,6 +831,13 @@ def compute_inverse_mass_matrix(engine, stats, debug_on):
     #  this should be exploited. Besides the CSR format is not the best for the sparse inverse, and further it is
     #  not exploited that the mass matrix is symmetric positive definite.
     W = sparse.linalg.inv(M)
+    free = np.ones(engine.number_of_nodes)
+    for body in engine.bodies.values():
+        if body.is_fixed:
+            free[body.offset: body.offset + len(body.x)] = 0.0
+    if not free.all():
+        free = sparse.diags(np.repeat(free, 3))
+        W = (free @ W @ free).tocsr()
     if debug_on:
         timer.end()
         stats["compute_inverse_mass_matrix"] = timer.elapsed
@@ -1029,6 +1036,8 @@ def apply_boundary_conditions_on_velocities(u: np.array, engine) -> None:
             #                    way to do it. Indices could be precomputed.
             indices = np.array([dc.idx for dc in body.dirichlet_conditions])
             u[indices + body.offset] = 0.0
+        if body.is_fixed:
+            u[body.offset: body.offset + len(body.x)] = 0.0
 
 
 class SemiImplicitStepper:
-- 
2.43.0


From 8936a9a9a228a5f5b564319449d54f90c1a4e176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:01 +0000
Subject: [PATCH 41/55] fix: soft body stepper uses the masses of the world as
 it is when stepping

---
 rainbow/simulators/prox_soft_bodies/solver.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/rainbow/simulators/prox_soft_bodies/solver.py b/rainbow/simulators/prox_soft_bodies/solver.py
index ab0203d..f9b9f99 100644
--- a/rainbow/simulators/prox_soft_bodies/solver.py
+++ b/rainbow/simulators/prox_soft_bodies/solver.py
@@ -1046,8 +1046,25 @@ class SemiImplicitStepper:
     """
     def __init__(self, engine: Engine, debug_on: bool) -> None:
         self.log = []
+        self.W = None
+        self._mass_state = None
+        self._update_inverse_mass_matrix(engine, debug_on)
+
+    def _update_inverse_mass_matrix(self, engine: Engine, debug_on: bool) -> None:
+        """
+        Compute the inverse mass matrix, unless nothing it depends on has changed since it was computed last time.
+
+        :param engine:      The current engine instance we are working with.
+        :param debug_on:    Boolean flag for toggling debug (aka profiling) info on and off.
+        :return:            None.
+        """
+        mass_state = [(body, body.M_array, body.is_fixed) for body in engine.bodies.values()]
+        if self._mass_state is not None and len(mass_state) == len(self._mass_state):
+            if all(all(a is b for a, b in zip(new, old)) for new, old in zip(mass_state, self._mass_state)):
+                return
         stats = {}
         self.W = compute_inverse_mass_matrix(engine, stats, debug_on)
+        self._mass_state = mass_state
         if debug_on:
             self.log.append(stats)
 
@@ -1078,6 +1095,8 @@ class SemiImplicitStepper:
 
         stats = {}
 
+        self._update_inverse_mass_matrix(engine, debug_on)
+
         x = get_position_vector(engine)
         apply_boundary_conditions_on_positions(x, engine)
 
-- 
2.43.0


From 54885e8abc9cc2689bcae6a79a1202369ef2cb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:37 +0000
Subject: [PATCH 42/55] fix: contacts pushed against pinned nodes as if these
 could move

---
 rainbow/simulators/prox_soft_bodies/solver.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/solver.py b/rainbow/simulators/prox_soft_bodies/solver.py
index f9b9f99..581162a 100644
--- a/rainbow/simulators/prox_soft_bodies/solver.py
+++ b/rainbow/simulators/prox_soft_bodies/solver.py
@@ -820,7 +820,8 @@ def compute_inverse_mass_matrix(engine, stats, debug_on):
     :param engine:      The current engine instance we are working with.
     :param stats:       A dictionary where to add more profiling and timing measurements.
     :param debug_on:    Boolean flag for toggling debug (aka profiling) info on and off.
-    :return:            The global inverse mass matrix. It is zero for the nodes of fixed bodies, nothing moves those.
+    :return:            The global inverse mass matrix. It is zero for the nodes of fixed bodies and for nodes
+                        with Dirichlet conditions, nothing moves those.
     """
     timer = None
     if debug_on:
@@ -835,6 +836,8 @@ def compute_inverse_mass_matrix(engine, stats, debug_on):
     for body in engine.bodies.values():
         if body.is_fixed:
             free[body.offset: body.offset + len(body.x)] = 0.0
+        for bc in body.dirichlet_conditions:
+            free[body.offset + bc.idx] = 0.0
     if not free.all():
         free = sparse.diags(np.repeat(free, 3))
         W = (free @ W @ free).tocsr()
@@ -1058,9 +1061,11 @@ class SemiImplicitStepper:
         :param debug_on:    Boolean flag for toggling debug (aka profiling) info on and off.
         :return:            None.
         """
-        mass_state = [(body, body.M_array, body.is_fixed) for body in engine.bodies.values()]
+        mass_state = [
+            (body, body.M_array, body.is_fixed, *body.dirichlet_conditions) for body in engine.bodies.values()
+        ]
         if self._mass_state is not None and len(mass_state) == len(self._mass_state):
-            if all(all(a is b for a, b in zip(new, old)) for new, old in zip(mass_state, self._mass_state)):
+            if all(len(new) == len(old) and all(a is b for a, b in zip(new, old)) for new, old in zip(mass_state, self._mass_state)):
                 return
         stats = {}
         self.W = compute_inverse_mass_matrix(engine, stats, debug_on)
-- 
2.43.0


From 0442fdff390e730dd8260fe1f416e0ca0ed3437d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:44 +0000
Subject: [PATCH 43/55] fix: flat parts of a soft body's surface were taken for
 self collisions

---
 rainbow/simulators/prox_soft_bodies/collision_detection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_soft_bodies/collision_detection.py b/rainbow/simulators/prox_soft_bodies/collision_detection.py
index 027e347..2d4a088 100644
--- a/rainbow/simulators/prox_soft_bodies/collision_detection.py
+++ b/rainbow/simulators/prox_soft_bodies/collision_detection.py
@@ -72,7 +72,9 @@ def _segment_triangle_intersection(p, q, tri):
     e2 = v3 - v1
     h = np.cross(d, e2)
     a = np.dot(e1, h)
-    if abs(a) <= np.finfo(float).eps * np.linalg.norm(e1) * np.linalg.norm(h):
+    # Round-off must not let a segment in the plane of the triangle pass for one that crosses it.
+    largest = max(np.max(np.abs(tri)), np.max(np.abs(p)), np.max(np.abs(q)))
+    if abs(a) <= 16 * np.finfo(float).eps * largest * np.linalg.norm(e1) * np.linalg.norm(e2):
         return False
 
     s = p - v1
-- 
2.43.0


From d7121f9aab0005c31a0a70dcf875ec785bec71cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:57 +0000
Subject: [PATCH 44/55] fix: inverse kinematics Hessian used axes and Jacobian
 columns of swapped angles

---
 rainbow/simulators/inverse_kinematics/api.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/rainbow/simulators/inverse_kinematics/api.py b/rainbow/simulators/inverse_kinematics/api.py
index 66f7558..5271512 100644
--- a/rainbow/simulators/inverse_kinematics/api.py
+++ b/rainbow/simulators/inverse_kinematics/api.py
@@ -339,11 +339,20 @@ def compute_hessian(chains, skeleton, J):
                 vc = np.dot(V3.cross(v, J_c), r)
                 wc = np.dot(V3.cross(w, J_c), r)
 
-                dH = np.array(
-                    [[ua, va, wa],
-                     [ub, vb, wb],
-                     [uc, vc, wc]]
-                )
+                # The second derivative is the axis of the outer angle crossed with the Jacobian column of the inner
+                # angle. Within a single bone the angles are ordered: alpha is the outermost and gamma the innermost.
+                if h != k:
+                    dH = np.array(
+                        [[ua, ub, uc],
+                         [va, vb, vc],
+                         [wa, wb, wc]]
+                    )
+                else:
+                    dH = np.array(
+                        [[ua, ub, uc],
+                         [ub, vb, vc],
+                         [uc, vc, wc]]
+                    )
 
                 H[h_offset:h_offset + 3, k_offset:k_offset + 3] -= dH
                 if h != k:
-- 
2.43.0


From c725edcb0207bf14c33d6b82504cc0eddac5cf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:57 +0000
Subject: [PATCH 45/55] fix: finite differences left the skeleton in a
 perturbed pose

---
 rainbow/simulators/inverse_kinematics/api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rainbow/simulators/inverse_kinematics/api.py b/rainbow/simulators/inverse_kinematics/api.py
index 5271512..105a120 100644
--- a/rainbow/simulators/inverse_kinematics/api.py
+++ b/rainbow/simulators/inverse_kinematics/api.py
@@ -538,6 +538,7 @@ def compute_finite_difference_gradient(chains, skeleton, h=0.1):
     g = np.zeros((N,), dtype=np.float64)
     for i in range(N):
         g[i] = __numerical_differentiation_first_derivative(chains, skeleton, i, h)
+    update_skeleton(skeleton)
     return g
 
 
@@ -560,5 +561,6 @@ def compute_finite_difference_hessian(chains, skeleton, h=0.1):
     for i in range(N):
         for j in range(N):
             H[i, j] = __numerical_differentiation_second_derivative(chains, skeleton, i, j, h)
+    update_skeleton(skeleton)
     return H
 
-- 
2.43.0


From bdd02e3a494e48a32da56ba8fb4881fc8303eb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:14 +0000
Subject: [PATCH 46/55] fix: adding a USD mesh under a name in use mixed it up
 with the one recorded before

---
 rainbow/util/USD.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rainbow/util/USD.py b/rainbow/util/USD.py
index 56ea340..d6c8f26 100644
--- a/rainbow/util/USD.py
+++ b/rainbow/util/USD.py
@@ -78,7 +78,12 @@ class USD:
         :param name: The name of the mesh
         :param V: The vertex positions of the mesh
         :param T: The triangle faces of the mesh
+
+        :raises ValueError: If a mesh or rigid body of that name was already added
         """
+        if name in self.meshes:
+            raise ValueError(f'mesh with name, {name}, was already added.')
+
         mesh = UsdGeom.Mesh.Define(self.stage, f'/scene/xform/{name}')
         mesh.CreatePointsAttr(V)
         mesh.CreateFaceVertexCountsAttr([len(face) for face in T])
-- 
2.43.0


From 76c3dd9877dc2e1fe75de482bf421fb23fd19907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:18 +0000
Subject: [PATCH 47/55] fix: side epistyle bricks of temples with pillars that
 are not square

---
 .../prox_rigid_bodies/scenes/create_temple.py | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/rainbow/simulators/prox_rigid_bodies/scenes/create_temple.py b/rainbow/simulators/prox_rigid_bodies/scenes/create_temple.py
index e962c98..fb49b47 100644
--- a/rainbow/simulators/prox_rigid_bodies/scenes/create_temple.py
+++ b/rainbow/simulators/prox_rigid_bodies/scenes/create_temple.py
@@ -228,6 +228,12 @@ def create_temple(
             API.set_position(engine, body_name, r_g, True)
             API.set_orientation(engine, body_name, q_g, True)
 
+    # The bricks along the sides are turned, hence pillar width and depth trade places in their shapes
+    shape_name = API.generate_unique_name("side_epistyle_brick_shape")
+    V, T = MESH.create_box(2.0 * pillar_depth, epistyle_height, pillar_width)
+    mesh = API.create_mesh(V, T)
+    API.create_shape(engine, shape_name, mesh)
+
     for k in range(1, K_pillars, 3):
         z = 2 * k * pillar_depth - temple_depth / 2.0 + pillar_depth * 1.5
 
@@ -321,6 +327,20 @@ def create_temple(
     API.set_position(engine, body_name, r_g, True)
     API.set_orientation(engine, body_name, q_g, True)
 
+    shape_name = API.generate_unique_name("side_corner_epistyle_brick_shape")
+    p0 = V3.make(-1.5 * pillar_depth, epistyle_height / 2.0, pillar_width / 2.0)
+    p1 = V3.make(1.0 * pillar_depth, epistyle_height / 2.0, pillar_width / 2.0)
+    p2 = V3.make(1.0 * pillar_depth, epistyle_height / 2.0, -pillar_width / 2.0)
+    p3 = V3.make(-0.5 * pillar_depth, epistyle_height / 2.0, -pillar_width / 2.0)
+    p4 = p0 - V3.make(0.0, epistyle_height, 0.0)
+    p5 = p1 - V3.make(0.0, epistyle_height, 0.0)
+    p6 = p2 - V3.make(0.0, epistyle_height, 0.0)
+    p7 = p3 - V3.make(0.0, epistyle_height, 0.0)
+
+    V, T = MESH.create_cuboid(p0, p1, p2, p3, p4, p5, p6, p7)
+    mesh = API.create_mesh(V, T)
+    API.create_shape(engine, shape_name, mesh)
+
     body_name = API.generate_unique_name("epistyle_brick_body")
     body_names.append(body_name)
     API.create_rigid_body(engine, body_name)
-- 
2.43.0


From ab90e1143a7c738a747dd7e178631c844002ae0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:18 +0000
Subject: [PATCH 48/55] fix: gears were hinged about an axis in the plane of
 the gear

---
 .../simulators/prox_rigid_bodies/scenes/create_gear_train.py  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/scenes/create_gear_train.py b/rainbow/simulators/prox_rigid_bodies/scenes/create_gear_train.py
index 58e80a6..bd5c1b9 100644
--- a/rainbow/simulators/prox_rigid_bodies/scenes/create_gear_train.py
+++ b/rainbow/simulators/prox_rigid_bodies/scenes/create_gear_train.py
@@ -450,8 +450,8 @@ def create_gear_train(engine: Engine,
             hinge_name=hinge_name,
             parent_name=parent_name,
             child_name=child_name,
-            origin= origin,
-            axis= V3.k(),
+            origin=origin,
+            axis=V3.j(),
             mode="world"
         )
 
-- 
2.43.0


From 3a32ece9c74bc748d02b6f4b867402cd96444a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:18 +0000
Subject: [PATCH 49/55] fix: create_rock_slide returned the names of its rocks
 as a nested list

---
 .../simulators/prox_rigid_bodies/scenes/create_rock_slide.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/scenes/create_rock_slide.py b/rainbow/simulators/prox_rigid_bodies/scenes/create_rock_slide.py
index dfb44c9..b4dd34e 100644
--- a/rainbow/simulators/prox_rigid_bodies/scenes/create_rock_slide.py
+++ b/rainbow/simulators/prox_rigid_bodies/scenes/create_rock_slide.py
@@ -109,7 +109,7 @@ def create_rock_slide(engine: Engine,
 
     r = V3.make(-10, 16, 5)
     q = Q.Ry(3 * np.pi / 4)
-    body_names.append(
+    body_names.extend(
         create_lattice(
             engine,
             r,
-- 
2.43.0


From 133e0a79b4e6fbb7120f8b0992466c5d658799c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:42 +0000
Subject: [PATCH 50/55] fix: write_xml could not write the pairs of materials

The attribute was set to the tuple itself, which can not be serialized, so that
every call of write_xml raised a TypeError.
---
 rainbow/simulators/prox_rigid_bodies/scenes/write_xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/scenes/write_xml.py b/rainbow/simulators/prox_rigid_bodies/scenes/write_xml.py
index ca91a25..3313631 100644
--- a/rainbow/simulators/prox_rigid_bodies/scenes/write_xml.py
+++ b/rainbow/simulators/prox_rigid_bodies/scenes/write_xml.py
@@ -76,7 +76,7 @@ def write_xml(engine: TYPES.Engine, xml_filename: str) -> None:
     materials_xml_node = ET.SubElement(root, "materials")
     for key, interaction in engine.surfaces_interactions.storage.items():
         interaction_xml_node = ET.SubElement(materials_xml_node, "interaction")
-        interaction_xml_node.set("materials", key)
+        interaction_xml_node.set("materials", ", ".join(key))
         interaction_xml_node.set("friction", np.array2string(interaction.mu))
         interaction_xml_node.set("restitution", str(interaction.epsilon))
 
-- 
2.43.0


From 5b492c81ba8631855f1af8eda56407a1101ded89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:42 +0000
Subject: [PATCH 51/55] fix: write_xml rounded vectors to eight digits

---
 .../prox_rigid_bodies/scenes/write_xml.py     | 32 ++++++++++++-------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/scenes/write_xml.py b/rainbow/simulators/prox_rigid_bodies/scenes/write_xml.py
index 3313631..8229a1f 100644
--- a/rainbow/simulators/prox_rigid_bodies/scenes/write_xml.py
+++ b/rainbow/simulators/prox_rigid_bodies/scenes/write_xml.py
@@ -9,6 +9,16 @@ import rainbow.math.quaternion as Q
 import rainbow.simulators.prox_rigid_bodies.types as TYPES
 
 
+def _to_string(values: np.ndarray) -> str:
+    """
+    Convert an array into a string that holds the exact values of the array.
+
+    :param values:   The array to convert.
+    :return:         A string with the numbers separated by spaces, in brackets.
+    """
+    return "[" + " ".join(str(value) for value in np.asarray(values).tolist()) + "]"
+
+
 def write_xml(engine: TYPES.Engine, xml_filename: str) -> None:
     """
     Write a scene to xml-file.
@@ -29,12 +39,12 @@ def write_xml(engine: TYPES.Engine, xml_filename: str) -> None:
         body_xml_node.set("name", body.name)
         body_xml_node.set("idx", str(body.idx))
         body_xml_node.set("shape", body.shape.name)
-        body_xml_node.set("pos", np.array2string(body.r))
-        body_xml_node.set("rot", np.array2string(body.q))
-        body_xml_node.set("vel", np.array2string(body.v))
-        body_xml_node.set("spin", np.array2string(body.w))
+        body_xml_node.set("pos", _to_string(body.r))
+        body_xml_node.set("rot", _to_string(body.q))
+        body_xml_node.set("vel", _to_string(body.v))
+        body_xml_node.set("spin", _to_string(body.w))
         body_xml_node.set("mass", str(body.mass))
-        body_xml_node.set("inertia", np.array2string(body.inertia))
+        body_xml_node.set("inertia", _to_string(body.inertia))
         body_xml_node.set("is_fixed", str(body.is_fixed))
         body_xml_node.set("material", body.material)
         for force in body.forces:
@@ -48,7 +58,7 @@ def write_xml(engine: TYPES.Engine, xml_filename: str) -> None:
             gravity_xml_node.set("name", force.name)
             # print(force.force_type)
             gravity_xml_node.set("g", str(force.g))
-            gravity_xml_node.set("up", np.array2string(force.up))
+            gravity_xml_node.set("up", _to_string(force.up))
         if force.force_type == "Damping":
             damping_xml_node = ET.SubElement(forces_xml_node, "damping")
             damping_xml_node.set("name", force.name)
@@ -65,19 +75,19 @@ def write_xml(engine: TYPES.Engine, xml_filename: str) -> None:
         for idx, v in enumerate(shape.mesh.V):
             vertex_xml_node = ET.SubElement(vertices_xml_node, "v")
             vertex_xml_node.set("idx", str(idx))
-            vertex_xml_node.set("p", np.array2string(v))
+            vertex_xml_node.set("p", _to_string(v))
         triangles_xml_node = ET.SubElement(shape_xml_node, "triangles")
         triangles_xml_node.set("count", str(len(shape.mesh.T)))
         for idx, t in enumerate(shape.mesh.T):
             triangle_xml_node = ET.SubElement(triangles_xml_node, "t")
             triangle_xml_node.set("idx", str(idx))
-            triangle_xml_node.set("labels", np.array2string(t))
+            triangle_xml_node.set("labels", _to_string(t))
 
     materials_xml_node = ET.SubElement(root, "materials")
     for key, interaction in engine.surfaces_interactions.storage.items():
         interaction_xml_node = ET.SubElement(materials_xml_node, "interaction")
         interaction_xml_node.set("materials", ", ".join(key))
-        interaction_xml_node.set("friction", np.array2string(interaction.mu))
+        interaction_xml_node.set("friction", _to_string(interaction.mu))
         interaction_xml_node.set("restitution", str(interaction.epsilon))
 
     hinges_xml_node = ET.SubElement(root, "hinges")
@@ -91,8 +101,8 @@ def write_xml(engine: TYPES.Engine, xml_filename: str) -> None:
         hinge_xml_node.set("child-idx", str(hinge.child.idx))
         o_world = Q.rotate(hinge.parent.q, hinge.arm_p) + hinge.parent.r
         s_world = Q.rotate(hinge.parent.q, hinge.axis_p)
-        hinge_xml_node.set("origin", np.array2string(o_world))
-        hinge_xml_node.set("axis", np.array2string(s_world))
+        hinge_xml_node.set("origin", _to_string(o_world))
+        hinge_xml_node.set("axis", _to_string(s_world))
         hinge_xml_node.set("mode", "world")
 
     params_xml_node = ET.SubElement(root, "params")
-- 
2.43.0


From d11d765275b66248e9bb1982db0f5550aea8b7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:05 +0000
Subject: [PATCH 52/55] fix: links of a robot were placed with respect to the
 body frame of its root

The body frame of the root (the origin of its inertial tag) was used as the
reference frame that joint origins are given in.
---
 rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py b/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py
index daec884..dae5ce8 100644
--- a/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py
+++ b/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py
@@ -336,6 +336,9 @@ def read_urdf(engine: TYPES.Engine, package_folder: str, urdf_file_path: str):
         root.X_b2r.q,
         use_model_frame=False
     )
+    # From here on X_b2r holds the transform from the reference frame of the link to the world. The reference frame
+    # of the root is the world coordinate system.
+    root.X_b2r = X.make(V3.zero(), Q.identity())
 
     while stack:
         parent = stack.pop()
-- 
2.43.0


From 7500723a4b32dbf79d359a345adc123274098885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:05 +0000
Subject: [PATCH 53/55] fix: scale of the meshes of a robot was ignored

---
 rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py b/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py
index dae5ce8..2a97227 100644
--- a/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py
+++ b/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py
@@ -112,6 +112,9 @@ class URDF:
             return None
 
         V, T = igl.read_triangle_mesh(filename=filename, dtypef=np.float64)
+        V = V * np.array(scale)
+        if np.prod(scale) < 0:  # A mirrored mesh is inside out
+            T = np.ascontiguousarray(T[:, ::-1])
 
         return {
             'shape': 'mesh',
-- 
2.43.0


From 4f8d3d69ef2432e5eb4ae4a3353a0f51d77b4be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:40 +0000
Subject: [PATCH 54/55] fix: shapes that keep their model frame were placed as
 if they had been moved to a body frame

---
 rainbow/simulators/prox_rigid_bodies/api.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rainbow/simulators/prox_rigid_bodies/api.py b/rainbow/simulators/prox_rigid_bodies/api.py
index c0c44f8..c3804bc 100644
--- a/rainbow/simulators/prox_rigid_bodies/api.py
+++ b/rainbow/simulators/prox_rigid_bodies/api.py
@@ -228,6 +228,10 @@ def create_shape(engine, shape_name: str, mesh: MESH.Mesh, transform_to_body_fra
     if transform_to_body_frame:
         MESH.translate(shape.mesh, -shape.r)
         MESH.rotate(shape.mesh, Q.conjugate(shape.q))
+    else:
+        # The mesh is used as it is, hence, its model frame is the body frame.
+        shape.r = V3.zero()
+        shape.q = Q.identity()
 
     max_length = (shape.mesh.V.max(axis=0) - shape.mesh.V.min(axis=0)).max()
     boundary = max(max_length * 0.1, engine.params.envelope * 2)
-- 
2.43.0


From f1a1439128c6ab1b2cacc9e937938f78cb5ceeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:20 +0000
Subject: [PATCH 55/55] fix: signed distance fields had random round-off and,
 now and then, nodes of the wrong sign

---
 rainbow/geometry/grid3.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rainbow/geometry/grid3.py b/rainbow/geometry/grid3.py
index d7cea98..3f4f120 100644
--- a/rainbow/geometry/grid3.py
+++ b/rainbow/geometry/grid3.py
@@ -335,5 +335,11 @@ def create_signed_distance(V, F, I, J, K, boundary=0.5):
     max_coord = (V.max(axis=0) + boundary).ravel()
     grid = Grid(min_coord, max_coord, I, J, K)
     nodes = get_nodes_array(grid)
-    grid.values, _, _ = igl.signed_distance(nodes, V, F)
+    distances, _, _ = igl.signed_distance(nodes, V, F, sign_type=igl.SIGNED_DISTANCE_TYPE_UNSIGNED)
+    # The default sign type of igl picks random paths through its hierarchy. The outcome differs from call to call by
+    # round-off and, once in a while, a node deep inside the mesh is taken to be outside. The fast winding number gives
+    # the same answer every time. It works in single precision, so we use coordinates relative to the center.
+    center = (min_coord + max_coord) / 2
+    inside = igl.fast_winding_number_for_meshes(V - center, F, nodes - center) > 0.5
+    grid.values = np.where(inside, -distances, distances)
     return grid
-- 
2.43.0

