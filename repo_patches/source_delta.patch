From 5a960d8c7944bccc284131c9bb3751b0518d3607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 01/62] fix: Line.is_equal no longer confuses a line with its
 mirror image

---
 planegeometry/geometry.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 789bf95..b50c3c4 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -126,11 +126,12 @@ class Line:
             raise ValueError("`line2` is not a `Line` object.")
         do1 = self.direction_offset()
         do2 = line2.direction_offset()
-        do1 = (do1["direction"], do1["offset"])
-        do2 = (do2["direction"], do2["offset"])
-        if approx_equal_(do1[1], do2[1]):
-            return approx_equal_(do1[0] % pi, do2[0] % pi)
-        return np.allclose(do1, do2)
+        delta = do1["direction"] - do2["direction"]
+        if not approx_equal_(sin(delta), 0):
+            return False
+        # opposite normal vectors: the offsets must be opposite as well
+        sgn = 1 if cos(delta) > 0 else -1
+        return approx_equal_(do1["offset"], sgn * do2["offset"])
     
     def is_parallel(self, line2):
         """Check whether the reference line is parallel to another line.
-- 
2.43.0


From ab134e2b1aaf3b027dc4b4be258e145a9818800d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 02/62] fix: a half-line includes its origin and the points
 sharing a coordinate with it

---
 planegeometry/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index b50c3c4..4b33a99 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -195,12 +195,12 @@ class Line:
             print("The point is on the line (AB), but not on the segment [AB].")
             return False
         if extendA:
-            if np.any((M-B)*(A-B)>0):
+            if dot_(M-B, A-B) >= 0:
                 return True
             print("The point is on the line (AB), but not on the half-line (AB].")
             return False
         # extendB
-        if np.any((M-A)*(B-A)>0):
+        if dot_(M-A, B-A) >= 0:
             return True
         print("The point is on the line (AB), but not on the half-line [AB).")
         return False
-- 
2.43.0


From 92e910c98ab99900e56f0785970b0401dbef2a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 03/62] fix: the intersection of two equal lines is the line

---
 planegeometry/geometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 4b33a99..eeceaae 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -342,6 +342,8 @@ class Line:
 
 def intersection_line_line(line1, line2, strict=False):
     if line1.is_equal(line2):
+        if not strict:
+            return line1
         print("TO DO")
         return
     if line1.is_parallel(line2):
-- 
2.43.0


From ec1c88df40b7e7bd9bbd078f2cac8bf8e533b26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 04/62] fix: is_parallel and is_perpendicular do not depend on
 the lengths of the AB segments

---
 planegeometry/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index eeceaae..9985c1f 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -151,7 +151,7 @@ class Line:
         dy1 = P1[1] - P2[1]
         dy2 = Q1[1] - Q2[1]
         D = det2x2_((dx1, dy1), (dx2, dy2))
-        return abs(D) < sepsilon_
+        return abs(D) < sepsilon_ * vlength_(P1 - P2) * vlength_(Q1 - Q2)
 
     def is_perpendicular(self, line2):
         """Check whether the reference line is perpendicular to another line.
@@ -164,7 +164,7 @@ class Line:
             raise ValueError("`line2` is not a `Line` object.")
         AB = self.B - self.A
         CD = line2.B - line2.A
-        return approx_equal_(np.vdot(AB, CD), 0)
+        return approx_equal_(np.vdot(AB, CD) / vlength_(AB) / vlength_(CD), 0)
 
     
     def includes(self, M, strict = False, checkCollinear = True):
-- 
2.43.0


From d96d38b9d06dc5ecf264bb655f41715199936c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 05/62] fix: Reflection.transform and Line.perpendicular accept
 the points near the line

---
 planegeometry/geometry.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 9985c1f..d96a522 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -225,6 +225,9 @@ class Line:
             print("M is on the line.")
             return Line(M, M + v, True, True)
         H = line_line_intersection_(A, B, M - v, M + v)
+        if np.allclose(H, M):
+            print("M is on the line.")
+            return Line(M, M + v, True, True)
         return Line(H, M, extendH, extendM)
 
     def projection(self, M):
@@ -2715,11 +2718,7 @@ class Reflection:
             return inf
         _ = error_if_not_point_(P=P)
         P = np.asarray(P, dtype=float)
-        line = self.line
-        if line.includes(P):
-            return P
-        perp = line.perpendicular(P, False, False)
-        return P + 2 * (perp.A - perp.B)
+        return 2 * self.line.projection(P) - P
     
     def reflect(self, P):
         """An alias of `transform`.
-- 
2.43.0


From e46923e3d1ad5ab36d05bbd3cd232e67c54d8435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 06/62] fix: detect the tangency of a line and a circle despite
 the rounding errors

---
 planegeometry/internal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planegeometry/internal.py b/planegeometry/internal.py
index f8a5a30..580ab4e 100644
--- a/planegeometry/internal.py
+++ b/planegeometry/internal.py
@@ -115,7 +115,7 @@ def circle_line_intersection_(A1, A2, r):
     dr2 = dx*dx + dy*dy
     D = det2x2_(A1, A2)
     Delta = r*r*dr2 - D*D
-    if Delta < 0:
+    if Delta < -sepsilon_:
         return None
     if Delta < sepsilon_:
         return D/dr2 * np.array([dy, -dx])
-- 
2.43.0


From d00f96665a3dcd5a046a8de3a518b43b41a044d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 07/62] fix: orthogonal_through_two_points_in_circle compares
 the distances to the radius

---
 planegeometry/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index d96a522..8f39f82 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -474,9 +474,9 @@ class Circle:
         I = self.center
         r = self.radius
         r2 = r * r
-        if distance_(P1, I) >= r2:
+        if distance_(P1, I) >= r:
             raise ValueError("`P1` is not in the interior of the reference circle.")
-        if distance_(P2,I) >= r2:
+        if distance_(P2,I) >= r:
             raise ValueError("`P2` is not in the interior of the reference circle.")
         if collinear_(I, P1, P2):
             return Line(P1, P2, not arc, not arc)
-- 
2.43.0


From daf97e2e5fcb2fa98df572dc2a267c33daa2b392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 08/62] fix: orthogonal_through_two_points_in_circle returns
 the arc joining the points

---
 planegeometry/geometry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 8f39f82..8b8aff5 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -491,10 +491,10 @@ class Circle:
         if arc:
             theta1 = atan2(P1[1]-O[1], P1[0]-O[0]) % (2*pi)
             theta2 = atan2(P2[1]-O[1], P2[0]-O[0]) % (2*pi)
-            return Arc(
-                O, distance_(O, P1),
-                min(theta1, theta2), max(theta1, theta2), False
-            )
+            # the arc inside the reference circle is smaller than a half-circle
+            if (theta2 - theta1) % (2*pi) > pi:
+                theta1, theta2 = theta2, theta1
+            return Arc(O, distance_(O, P1), theta1, theta2, False)
         return Circle(O, distance_(O, P1))
     
     def orthogonal_through_two_points_on_circle(self, alpha1, alpha2, arc = False):
-- 
2.43.0


From f7f6155e9069c4873b32aef2f5082e24f96f8d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 09/62] fix: orthogonal_through_two_points_on_circle recognises
 rounded diameters

---
 planegeometry/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 8b8aff5..16fe9fc 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -512,7 +512,7 @@ class Circle:
         I = self.center
         r = self.radius
         dalpha = alpha1 - alpha2
-        if dalpha % pi == 0:
+        if dalpha % pi == 0 or abs(cos(dalpha/2)) < sepsilon_:
             eialpha1 = unit_vector_(alpha1)
             A = I + r*eialpha1
             B = I - r*eialpha1
-- 
2.43.0


From 4f9323578a266424b19570d0232e49fc9ea0389a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 10/62] fix: Circle.angle of two tangent circles

---
 planegeometry/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 16fe9fc..bd12c87 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -647,7 +647,7 @@ class Circle:
         bprime1 = r1 * (dot_(a1) - 1)
         bprime2 = r2 * (dot_(a2) - 1)
         cos_theta = b1*bprime2/2 + b2*bprime1/2 - dot_(a1, a2)
-        return acos(cos_theta)
+        return acos(max(min(cos_theta, 1), -1))
 
 def circleAB(A, B):
     """Circle with diameter `AB`.
-- 
2.43.0


From 6e2e20b2bd01cd21759212aa0bcffafa4b5e46bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 11/62] fix: intersection of two concentric circles with close
 radii

---
 planegeometry/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index bd12c87..c37e399 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -810,7 +810,7 @@ def intersection_circle_circle(circ1, circ2):
     center2 = circ2.center
     d2 = dot_(center1 - center2)
     sumRadii2 = (r1 + r2)**2
-    if d2 > sumRadii2 + sepsilon_ or d2 < (r1-r2)**2 - sepsilon_:
+    if d2 == 0 or d2 > sumRadii2 + sepsilon_ or d2 < (r1-r2)**2 - sepsilon_:
         return None
     touch = sumRadii2 - d2 < sepsilon_ or d2 - (r1-r2)**2 < sepsilon_
     x, y = center1 - center2
-- 
2.43.0


From 9a46f2b9b1ffff6e61f88b10afa4bd8d71e4638a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 12/62] fix: mid-circle of two tangent congruent circles
 despite the rounding errors

---
 planegeometry/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index c37e399..d371963 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -730,7 +730,7 @@ def mid_circles(circ1, circ2):
             x, y = O2 - O1
             v = np.array([y, -x])
             line = Line(I+v, I-v)
-            if d2 < sumRadii2: # they intersect at two points
+            if d2 < sumRadii2 - sepsilon_: # they intersect at two points
                 out = [
                   Circle(I, sqrt(abs(dot_(I-O2) - r2*r2))),
                   line
-- 
2.43.0


From a528f006c9b013e40b50fa7e120fce6538fe14a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 13/62] fix: Inversion.from_swapping_two_circles for tangent
 circles

---
 planegeometry/geometry.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index d371963..0e52a6c 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1616,28 +1616,27 @@ class Inversion:
         c1c2 = distance_(c1, c2)
         if r1 == r2:
             I = (c1 + c2) / 2
+            if abs(c1c2 - (r1+r2)) < sepsilon_: # they touch
+                print("No possible inversion; returning a reflection")
+                x, y = c2 - c1
+                v = np.array([-y, x])
+                return Reflection(Line(I+v, I-v))
             if c1c2 < r1+r2: # they intersect at two points or are equal
                 if not positive:
                     print("`positive = False` not possible; switching to `True`")
                 k = abs(dot_(I - c2) - r2*r2)
                 return Inversion(I, k)
-            if c1c2 > r1+r2: # they do not intersect
-                if positive:
-                    print("`positive = True` not possible; switching to `False`")
-                k = -abs(dot_(I - c2) - r2*r2)
-                return Inversion(I, k)
-            # they touch
-            print("No possible inversion; returning a reflection")
-            x, y = c2 - c1
-            v = np.array([-y, x])
-            print("TO DO")
-            return#Reflection(Line(I+v, I-v))
+            # they do not intersect
+            if positive:
+                print("`positive = True` not possible; switching to `False`")
+            k = -abs(dot_(I - c2) - r2*r2)
+            return Inversion(I, k)
         inside = inside_tangent = False
-        if max(r1, r2) >= c1c2 + min(r1, r2):
+        if max(r1, r2) >= c1c2 + min(r1, r2) - sepsilon_:
             inside = True
-            inside_tangent = max(r1, r2) == c1c2 + min(r1, r2)
+            inside_tangent = max(r1, r2) <= c1c2 + min(r1, r2) + sepsilon_
         if (not positive) and ((not inside) or inside_tangent):
-            they_intersect = c1c2 <= r1+r2
+            they_intersect = c1c2 <= r1+r2 + sepsilon_
             if they_intersect:
                 print("`positive = False` not possible; switching to `True`")
                 positive = True
-- 
2.43.0


From cd27c60ee6c0f23b1abeb2aef08be0e4bdb6b026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 14/62] fix: Inversion.invert_gcircle compared the class to a
 string

---
 planegeometry/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 0e52a6c..e4ec26f 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1558,9 +1558,9 @@ class Inversion:
         :returns: A `Circle` object or a `Line` object.
         
         """
-        if isinstance(gcircle, "Circle"):
+        if isinstance(gcircle, Circle):
             return self.invert_circle(gcircle)
-        if isinstance(gcircle, "Line"):
+        if isinstance(gcircle, Line):
             return self.invert_line(gcircle)
         raise ValueError("`gcircle` must be a `Line` object or a `Circle` object.")
     
-- 
2.43.0


From 212fd54193028fc75466cb6bafcf7532dcb45b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 15/62] fix: Ellipse.is_equal compares the angles modulo 180
 degrees and accepts circles

---
 planegeometry/geometry.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index e4ec26f..2fe16db 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -995,9 +995,14 @@ class Ellipse:
         alpha2 = ell2.alpha
         if not ell2.degrees:
             alpha2 *= 180/pi
-        v1 = np.array([x1, y1, self.rmajor, self.rminor, alpha1 % 180])
-        v2 = np.array([x2, y2, ell2.rmajor, ell2.rminor, alpha2 % 180])
-        return np.allclose(v1, v2)
+        v1 = np.array([x1, y1, self.rmajor, self.rminor])
+        v2 = np.array([x2, y2, ell2.rmajor, ell2.rminor])
+        if not np.allclose(v1, v2):
+            return False
+        if np.isclose(self.rmajor, self.rminor): # the angle is irrelevant
+            return True
+        # the angles are defined modulo 180 degrees
+        return bool(np.isclose((alpha1 - alpha2 + 90) % 180, 90))
 
     def path(self, n_points=100):
         """Path that forms the ellipse.
-- 
2.43.0


From bb931ec01707334239541fd8cfda8edfa0e22b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:24 +0000
Subject: [PATCH 16/62] fix: Ellipse.point_from_angle does not modify its
 argument

---
 planegeometry/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 2fe16db..4fd5a94 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1069,7 +1069,7 @@ class Ellipse:
         if self.degrees:
             alpha *= pi/180
         if degrees:
-            theta *= pi/180
+            theta = theta * pi/180
         theta_mod_2pi = theta % (2*pi)
         sgn = 2 * (theta_mod_2pi <= sepsilon_) - 1
         theta_eps = theta + sepsilon_ * sgn
-- 
2.43.0


From c935d03b2608de03a76236cc1df0245b705b4db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:24 +0000
Subject: [PATCH 17/62] fix: Ellipse.theta2t and point_from_angle at the
 multiples of 180 degrees

---
 planegeometry/geometry.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 4fd5a94..416d7f9 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1070,10 +1070,9 @@ class Ellipse:
             alpha *= pi/180
         if degrees:
             theta = theta * pi/180
-        theta_mod_2pi = theta % (2*pi)
-        sgn = 2 * (theta_mod_2pi <= sepsilon_) - 1
-        theta_eps = theta + sepsilon_ * sgn
-        t = np.arctan2(a/b, 1/np.tan(theta_mod_2pi)) + theta_eps - theta_eps % pi
+        sine = np.sin(theta)
+        cosine = np.cos(theta)
+        t = theta + np.arctan2((a-b)*sine*cosine, b*cosine*cosine + a*sine*sine)
         out = ellipse_points_(t, O, a, b, alpha)
         if len(theta) == 1:
             out = out[0]
@@ -1183,10 +1182,11 @@ class Ellipse:
         _ = error_if_not_boolean_(degrees=degrees)
         if degrees:
             theta *= pi/180
-        theta_mod_2pi = theta % (2*pi)
-        sgn = 1 if theta_mod_2pi < sepsilon_ else -1
-        theta_eps = theta + sgn*sepsilon_
-        return atan2(self.rmajor/self.rminor, 1/tan(theta_mod_2pi)) + theta_eps - theta_eps % pi
+        a = self.rmajor
+        b = self.rminor
+        sine = sin(theta)
+        cosine = cos(theta)
+        return theta + atan2((a-b)*sine*cosine, b*cosine*cosine + a*sine*sine)
     
     def diameter(self, t, conjugate=False):
         """Diameter of the ellipse.
-- 
2.43.0


From 35e06023ddb1f7fb6a842685f0cb7d8290b06096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:24 +0000
Subject: [PATCH 18/62] fix: Ellipse.includes does not depend on the scale of
 the ellipse

---
 planegeometry/geometry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 416d7f9..3730e29 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1139,10 +1139,10 @@ class Ellipse:
         
         """
         _ = error_if_not_point_(P=P)
-        A, B, C, D, E, F = self.equation().values()
-        x, y = P
-        zero = A*x*x + B*x*y + C*y*y + D*x + E*y + F
-        return isclose(1.0, zero+1.0)
+        A, B, C, _, _, _ = self.equation().values()
+        x, y = np.asarray(P, dtype=float) - self.center
+        one = (A*x*x + B*x*y + C*y*y) / (self.rmajor**2 * self.rminor**2)
+        return isclose(1.0, one)
 
     def contains(self, P):
         """Check whether a point is contained in the ellipse.
-- 
2.43.0


From 572afd06f80a942494cc470dac04ab46122153b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:24 +0000
Subject: [PATCH 19/62] fix: Ellipse.from_equation accepts all ellipses, in
 particular those with A=C

---
 planegeometry/geometry.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 3730e29..11fd424 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1235,10 +1235,8 @@ class Ellipse:
         :returns: An `Ellipse` object.
         
         """
-        if A*C <= 0 or B*B-4*A*C >= 0 or D*D + E*E <= 4*(A+C)*F:
-            raise ValueError("These parameters do not define an ellipse.")
         Q = np.array([[2*A, B, D], [B, 2*C, E], [D, E, 2*F]])
-        if np.linalg.det(Q) == 0:
+        if A*C <= 0 or B*B-4*A*C >= 0 or np.linalg.det(Q)*(A+C) >= 0:
             raise ValueError("These parameters do not define an ellipse.")
         M0 = np.array([F, D/2, E/2, D/2, A, B/2, E/2, B/2, C]).reshape((3,3))
         M = np.array([[A, B/2], [B/2, C]])
@@ -1248,7 +1246,11 @@ class Ellipse:
         a = sqrt(-detM0 / (detM * eigvals[0]))
         b = sqrt(-detM0 / (detM * eigvals[1]))
         xy = np.array([B*E - 2*C*D, B*D - 2*A*E])
-        phi = 0.0 if A == C else (atan(B/(A-C))/2 if abs(C) > abs(A) else pi/2 - atan(-B/(A-C))/2)
+        if A == C and B == 0:
+            phi = 0.0
+        else:
+            sgn = 1 if A > 0 else -1
+            phi = atan2(-sgn*B, sgn*(C-A))/2
         return Ellipse(xy/(4*A*C - B*B), max(a,b), min(a,b), (phi*180/pi) % 180)
     
     @classmethod
-- 
2.43.0


From 5f82ca47e10d1761f2d4848d75ba723d6f09b644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:24 +0000
Subject: [PATCH 20/62] fix: np.float does not exist in numpy >= 1.24
 (Ellipse.from_boundary4)

---
 planegeometry/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 11fd424..617b2b3 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1371,13 +1371,13 @@ class Ellipse:
     
         # shear parallel to x-axis to make diagonals perpendicular
         m = (points[1, 0] - points[3, 0]) / (points[3, 1] - points[1, 1])
-        shear_mat = np.array([[1, m], [0, 1]], dtype=np.float)
+        shear_mat = np.array([[1, m], [0, 1]], dtype=float)
         points = shear_mat.dot(points.T).T
     
         # make the quadrilateral cyclic (i.e. all vertices lie on a circle)
         b = np.linalg.norm(points, axis=1)
         d = b[1] * b[3] / (b[2] * b[0])
-        stretch_mat = np.diag(np.array([d ** .25, d ** -.25], dtype=np.float))
+        stretch_mat = np.diag(np.array([d ** .25, d ** -.25], dtype=float))
         points = stretch_mat.dot(points.T).T
     
         # compute optimal swing angle by solving cubic equation
-- 
2.43.0


From 1f50b76c3b8228b420d799e883f38aa19c1899b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:24 +0000
Subject: [PATCH 21/62] fix: sign of Triangle.orientation

---
 planegeometry/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 617b2b3..aed82e0 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1823,7 +1823,7 @@ class Triangle:
         B = self.B
         C = self.C
         val = (B[1] - A[1])*(C[0] - B[0]) - (B[0] - A[0])*(C[1] - B[1])
-        return 0 if val==0 else (1 if val>0 else -1)
+        return 0 if val==0 else (-1 if val>0 else 1)
     
     def contains(self, M):
         """Check whether a point lies inside the reference triangle.
-- 
2.43.0


From 5db605031ea5162163e0dc7a387f2d2261f5c120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:24 +0000
Subject: [PATCH 22/62] fix: angles of a flat triangle

---
 planegeometry/geometry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index aed82e0..96382c8 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1861,7 +1861,7 @@ class Triangle:
         AB = B - A
         b = vlength_(AC)
         c = vlength_(AB)
-        return acos(dot_(AC, AB) / b / c)
+        return acos(max(min(dot_(AC, AB) / b / c, 1), -1))
 
     @property        
     def angleB(self):
@@ -1875,7 +1875,7 @@ class Triangle:
         BA = A - B
         a = vlength_(BC)
         c = vlength_(BA)
-        return acos(dot_(BC, BA) / a / c)
+        return acos(max(min(dot_(BC, BA) / a / c, 1), -1))
 
     @property        
     def angleC(self):
@@ -1889,7 +1889,7 @@ class Triangle:
         CB = B - C
         b = vlength_(CA)
         a = vlength_(CB)
-        return acos(dot_(CA, CB) / a / b)
+        return acos(max(min(dot_(CA, CB) / a / b, 1), -1))
     
     def incircle(self):
         """The incircle of the triangle.
-- 
2.43.0


From da45c9d5da022e3e7a5c0a00f5fc2a5c7600095c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:24 +0000
Subject: [PATCH 23/62] fix: Mobius.fixed_points with complex fixed points

---
 planegeometry/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 96382c8..44702e3 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2476,8 +2476,8 @@ class Mobius:
         if Delta == 0:
             return from_complex_((a-d)/2/c)
         return [
-            from_complex_((a-d + sqrt(Delta))/2/c),
-            from_complex_((a-d - sqrt(Delta))/2/c)            
+            from_complex_((a-d + np.sqrt(Delta))/2/c),
+            from_complex_((a-d - np.sqrt(Delta))/2/c)            
         ]
 
     
-- 
2.43.0


From e9229d0e40ddc7cbbb0ba4aedfc9d239e809df2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:24 +0000
Subject: [PATCH 24/62] fix: Mobius.from_mapping_three_points with inf

---
 planegeometry/internal.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/planegeometry/internal.py b/planegeometry/internal.py
index 580ab4e..564a238 100644
--- a/planegeometry/internal.py
+++ b/planegeometry/internal.py
@@ -1,4 +1,5 @@
-from math import cos, sin, sqrt, atan2, pi, isinf, isclose
+from math import cos, sin, sqrt, atan2, pi, isclose
+from cmath import isinf
 import numpy as np
 from fractions import Fraction as Fr
 import numbers
@@ -7,7 +8,7 @@ def approx_equal_(x, y):
     return isclose(x, y) or isclose(x+1, y+1)
 
 def is_inf_(x):
-    return isinstance(x, float) and isinf(x)
+    return isinstance(x, (float, complex)) and isinf(x)
 
 def are_equal_(x, y):
     return (is_inf_(x) and is_inf_(y)) or x==y
-- 
2.43.0


From 1b8bfe2a0247a081ef70fe0e4e8017a7969fb67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:42 +0000
Subject: [PATCH 25/62] fix: Mobius.transform_circle when the circle passes
 through the pole

---
 planegeometry/geometry.py | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 44702e3..eef7cab 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2496,7 +2496,8 @@ class Mobius:
         z0 = complex(*circ.center)
         x1 = mod2_(d + c*z0)
         x2 = R*R*mod2_(c)
-        if x1 != x2: # we are in this case if c=0
+        # the circle passes through the pole if these two distances are equal
+        if c == 0 or abs(sqrt(x1) - sqrt(x2)) > sepsilon_ * sqrt(x2):
             if x1 > 0:
                 z = z0 if c == 0 else z0 - R*R / (d/c + z0).conjugate()
                 w0 = self.transform(from_complex_(z))
@@ -2505,24 +2506,12 @@ class Mobius:
             v = w0 - self.transform(from_complex_(z0 + R))
             return Circle(w0, abs(complex(*v)))
         M = from_complex_(-d/c)
-        if c != 0 and circ.includes(M):
-            alpha = 0.0
-            while True:
-                P = circ.point_from_angle(alpha, degrees=False)
-                if not np.allclose(P, M):
-                    break
-                alpha += 0.1
-            while True:
-                Q = circ.point_from_angle(alpha+3, degrees=False)
-                if not np.allclose(Q, M):
-                    break
-                alpha += 0.1
-            A = self.transform(P)
-            B = self.transform(Q)
-        else:
-            A = self.transform(circ.point_from_angle(0))
-            B = self.transform(circ.point_from_angle(180, degrees=True))
-        return Line(A, B)
+        # two points of the circle which are far from the pole
+        x, y = M - circ.center
+        alpha = atan2(y, x)
+        P = circ.point_from_angle(alpha + pi/2, degrees=False)
+        Q = circ.point_from_angle(alpha - pi/2, degrees=False)
+        return Line(self.transform(P), self.transform(Q))
     
     def transform_line(self, line):
         """Transform a line by the Möbius transformation.
-- 
2.43.0


From 2be90c1ea165fa6611ffbe6de6a99703231f57a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:44 +0000
Subject: [PATCH 26/62] fix: Mobius.transform_line when the line passes through
 the pole

---
 planegeometry/geometry.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index eef7cab..76ed4a7 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2533,9 +2533,16 @@ class Mobius:
         A = -2 * (gamma0 * c * d.conjugate()).real - D0 * mod2_(c)
         gamma = gamma0.conjugate() * b * c.conjugate() + gamma0 * d.conjugate() * a + D0 * c.conjugate() *a
         D = D0 * mod2_(a) + 2 * (gamma0 * b.conjugate() * a).real
-        if abs(A) > sepsilon_:
+        # A=0 if and only if the line passes through the pole, or c=0
+        if abs(A) > sepsilon_ * (mod2_(c) + mod2_(d)):
             return Circle(from_complex_(-gamma/A), sqrt(mod2_(gamma)/A/A + D/A))
-        return Line(self.transform(line.A), self.transform(line.B))
+        P = line.A
+        Q = line.B
+        if c != 0:
+            # two points of the line which are far from the pole
+            M = line.projection(from_complex_(-d/c))
+            P, Q = M + (Q - P), M - (Q - P)
+        return Line(self.transform(P), self.transform(Q))
     
     @classmethod
     def from_mapping_three_points(cls, P1, P2, P3, Q1, Q2, Q3):
-- 
2.43.0


From 057305f39c351424945e4c5aa75e4c92d6b27ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:46 +0000
Subject: [PATCH 27/62] fix: the parabolic case of Mobius.gpower does not
 depend on the scale of the matrix

---
 planegeometry/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 76ed4a7..bf3f23c 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2406,7 +2406,7 @@ class Mobius:
         M = self.M
         detM = det2x2_mat_(M)
         trM = M[0, 0] + M[1, 1]
-        if abs(trM*trM - 4*detM) < sepsilon_:
+        if abs(trM*trM - 4*detM) < sepsilon_ * abs(detM):
             alpha = trM / 2
             D = np.diag((alpha, alpha))
             if np.allclose(M, D):
-- 
2.43.0


From e34ec532dfcfd94464e1d25b957326dfe78f75a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:47 +0000
Subject: [PATCH 28/62] fix: the matrix of Shear is the one of its definition
 and fixes the vertex

---
 planegeometry/geometry.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index bf3f23c..15555e3 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -3032,8 +3032,8 @@ class Shear:
     >>> axes.add_artist(unit_square)
     >>> image = plt.Polygon([A,B,C,D], fill=False, color="red")
     >>> axes.add_artist(image)
-    >>> plt.xlim(0, 1)
-    >>> plt.ylim(0, 2)
+    >>> plt.xlim(0, 2)
+    >>> plt.ylim(0, 1)
     >>> plt.show()
 
     """
@@ -3095,10 +3095,8 @@ class Shear:
         z = np.array([[0], [0], [1]])
         M1 = np.hstack((np.array([w, wt, Q]), z))
         M2 = np.hstack((np.array([w, tan(angle)*w + wt, Q]), z))
-        M = np.matmul(np.linalg.inv(M1), M2)
-        M[:, 2] = M[2, :]
-        M[2, :] = np.array([0, 0, 1])
-        return M
+        # M1 and M2 act on row vectors
+        return np.transpose(np.matmul(np.linalg.inv(M1), M2))
 
     def transform(self, M):
         """Transform one or more points.
-- 
2.43.0


From 3a27c880f6c09f69318c536f82358f5e0a71781a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 29/62] fix: Projection.show

---
 planegeometry/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 15555e3..0b85068 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2797,8 +2797,8 @@ class Projection:
         print("Projection onto the line `D` passing through `A` and `B` parallel to the line `Delta` passing through `P` and `Q`.\n")
         print("                 A: ", self.D.A, "\n")
         print("                 B: ", self.D.B, "\n")
-        print("                 P: ", self.Delta.P, "\n")
-        print("                 Q: ", self.Delta.Q, "\n")
+        print("                 P: ", self.Delta.A, "\n")
+        print("                 Q: ", self.Delta.B, "\n")
         if self.orthogonal:
             print("This is an orthogonal projection.\n")
 
-- 
2.43.0


From c27881f4b30fbc2ba213c8238bd653205dfff20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:50 +0000
Subject: [PATCH 30/62] fix: Scaling.scale_circle with a scale lower than -1

---
 planegeometry/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 0b85068..918c753 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -3404,7 +3404,7 @@ class Scaling:
         A1 = self.transform(C + R*w/lw)
         wt = np.array([-w[1], w[0]])
         A2 = self.transform(C + R*wt/lw)
-        if self.scale >= 1:
+        if abs(self.scale) >= 1:
             r1 = distance_(A1, O)
             r2 = distance_(A2, O)
             alpha = atan2(A1[1]-O[1], A1[0]-O[0]) * 180/pi
-- 
2.43.0


From e140feded03eda6183e9dc739335a6e4c5356225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:37 +0000
Subject: [PATCH 31/62] fix: Ellipse.from_boundary4 for symmetric
 quadrilaterals

---
 planegeometry/geometry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 918c753..a714b34 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1389,9 +1389,9 @@ class Ellipse:
             - 8 * a[1] ** 2 * a[2] * a[0] + 3 * (a[1] ** 2 + a[2] ** 2) * a[0] ** 2
         coeff[3] = coeff[1] / 2.
         rts = np.roots(coeff)
-        # take the unique root in the interval (-1, 1)
-        rts = rts[(-1 < rts) & (rts < 1)]
-        theta = asin(np.real(rts[0]))
+        # take the unique root in the interval (-1, 1); 1 and -1 can be roots
+        rts = np.real(rts[np.abs(np.imag(rts)) < sepsilon_])
+        theta = asin(rts[np.argmin(np.abs(rts))])
     
         # apply transformation D_theta
         D_mat = np.array([[cos(theta) ** -.5,
-- 
2.43.0


From 69c46ccc49c510892d1fdf6059d993438d7af9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:01 +0000
Subject: [PATCH 32/62] fix: Ellipse.LownerJohnEllipse with duplicated,
 collinear or cocyclic points

---
 planegeometry/geometry.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index a714b34..70e8898 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1455,6 +1455,7 @@ class Ellipse:
         """
         if bpoints is None:
             bpoints = np.empty((0,2))
+            ipoints = np.unique(ipoints, axis=0)
         # stopping condition: stop either if interior is empty or if there are 5
         # points on the boundary, in which case a unique ellipse is determined.
         if ipoints.shape[0] == 0 or bpoints.shape[0] >= 5:
@@ -1462,6 +1463,12 @@ class Ellipse:
             # if boundary has only 2 points, ellipse is degenerate
             if bpoints.shape[0] <= 2:
                 return None
+
+            # as well as if the boundary points are collinear
+            centered = bpoints - np.mean(bpoints, axis=0)
+            tol = sepsilon_ * vlength_(centered)
+            if np.linalg.matrix_rank(centered, tol) < 2:
+                return None
     
             # call primitive functions to compute smallest ellipse going through
             # 3, 4, or 5 points.
@@ -1485,7 +1492,10 @@ class Ellipse:
     
         # if p is in this ellipse, then this ellipse is also the smallest ellipse
         # containing interior
-        if (not ellipse is None) and ellipse.contains(p):
+        if (not ellipse is None) and (
+            # there can be some rounding errors if p is on the boundary
+            ellipse.contains(p) or ellipse.includes(p)
+        ):
             return ellipse
     
         # if not, then p must be on the boundary of the smallest ellipse
-- 
2.43.0


From 98f2a19f11de43a72304ca1aff4e38f2b110eb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:03 +0000
Subject: [PATCH 33/62] fix: Mobius.transform at the pole when -d/c is rounded

At a point z with cz+d=0 the image is infinity, but the rounding of the
complex division -d/c could hide it and arrays of inf and nan were
returned.
---
 planegeometry/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 70e8898..508764b 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2460,7 +2460,7 @@ class Mobius:
         _ = error_if_not_point_(P=P)
         P = np.asarray(P)
         z = complex(*P)
-        condition = c != 0 and z == -d/c
+        condition = c != 0 and (z == -d/c or c*z + d == 0)
         return inf if condition else from_complex_((a*z+b)/(c*z+d))
     
     
-- 
2.43.0


From 1b9c9a89d713a5ff6ed8bee4df548145ca954a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:17 +0000
Subject: [PATCH 34/62] fix: Mobius.transform_circle for a circle centred at
 the pole up to rounding

The test on |cz0+d| did not protect the division by z0+d/c, which could
vanish while cz0+d was only tiny: the center and the radius were nan.
---
 planegeometry/geometry.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 508764b..bde1ba2 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2508,8 +2508,9 @@ class Mobius:
         x2 = R*R*mod2_(c)
         # the circle passes through the pole if these two distances are equal
         if c == 0 or abs(sqrt(x1) - sqrt(x2)) > sepsilon_ * sqrt(x2):
-            if x1 > 0:
-                z = z0 if c == 0 else z0 - R*R / (d/c + z0).conjugate()
+            z1 = z0 if c == 0 else d/c + z0
+            if c == 0 or z1 != 0:
+                z = z0 if c == 0 else z0 - R*R / z1.conjugate()
                 w0 = self.transform(from_complex_(z))
             else:
                 w0 = self.transform(inf)
-- 
2.43.0


From 95b4e0512ae2086533fb679eb08e2c669c4374e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:31 +0000
Subject: [PATCH 35/62] fix: all the NumPy complex types are rejected as real
 numbers, not only complex128

---
 planegeometry/internal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planegeometry/internal.py b/planegeometry/internal.py
index 564a238..49f7133 100644
--- a/planegeometry/internal.py
+++ b/planegeometry/internal.py
@@ -14,7 +14,7 @@ def are_equal_(x, y):
     return (is_inf_(x) and is_inf_(y)) or x==y
 
 def is_number_(x):
-    return isinstance(x, numbers.Number) and (not isinstance(x, complex))
+    return isinstance(x, numbers.Number) and (isinstance(x, numbers.Real) or not isinstance(x, numbers.Complex))
 
 def error_if_not_number_(**kwargs):
     key = list(kwargs.keys())[0]
-- 
2.43.0


From 487e7f9dfea0e7d6a04dc8012105fc1362fb157a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:16 +0000
Subject: [PATCH 36/62] fix: a secant line given by close points, or a small
 circle, was reported as tangent

---
 planegeometry/internal.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/planegeometry/internal.py b/planegeometry/internal.py
index 49f7133..431b010 100644
--- a/planegeometry/internal.py
+++ b/planegeometry/internal.py
@@ -116,9 +116,10 @@ def circle_line_intersection_(A1, A2, r):
     dr2 = dx*dx + dy*dy
     D = det2x2_(A1, A2)
     Delta = r*r*dr2 - D*D
-    if Delta < -sepsilon_:
+    tol = sepsilon_ * r*r*dr2
+    if Delta < -tol:
         return None
-    if Delta < sepsilon_:
+    if Delta < tol:
         return D/dr2 * np.array([dy, -dx])
     sgn = -1 if dy < 0 else 1
     Ddy = D*dy
-- 
2.43.0


From 0f85d718eed27cabc29d6f8fbcb07ea86fe9e1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:46 +0000
Subject: [PATCH 37/62] fix: the tests of tangency of two circles are relative
 to the radii

---
 planegeometry/geometry.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index bde1ba2..293d59f 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -637,7 +637,8 @@ class Circle:
         r1 = self.radius
         r2 = circ2.radius
         d2 = dot_(center1 - center2)
-        if d2 > (r1+r2)**2 + sepsilon_ or d2 < (r1-r2)**2 - sepsilon_:
+        tol = sepsilon_ * (r1+r2)**2
+        if d2 > (r1+r2)**2 + tol or d2 < (r1-r2)**2 - tol:
             print("The two circles do not intersect.")
             return None
         b1 = 1/r1
@@ -730,7 +731,7 @@ def mid_circles(circ1, circ2):
             x, y = O2 - O1
             v = np.array([y, -x])
             line = Line(I+v, I-v)
-            if d2 < sumRadii2 - sepsilon_: # they intersect at two points
+            if d2 < sumRadii2 - sepsilon_ * sumRadii2: # they intersect at two points
                 out = [
                   Circle(I, sqrt(abs(dot_(I-O2) - r2*r2))),
                   line
@@ -741,19 +742,20 @@ def mid_circles(circ1, circ2):
         d2 = dot_(O1 - O2)
         sumRadii2 = (r1 + r2)**2
         rho = r1 / r2
-        if d2 > sumRadii2 + sepsilon_: # they are outside each other
+        tol = sepsilon_ * sumRadii2
+        if d2 > sumRadii2 + tol: # they are outside each other
             I = O1 - rho/(1-rho)*(O2-O1)
             k = rho * abs(dot_(I-O2) - r2*r2)
             out = Circle(I, sqrt(k))
-        elif d2 < (r1-r2)**2 - sepsilon_: # one contains the other
+        elif d2 < (r1-r2)**2 - tol: # one contains the other
             I = O1 + rho/(1+rho)*(O2-O1)
             k = rho * abs(dot_(I-O2) - r2*r2)
             out = Circle(I, sqrt(k))
-        elif sumRadii2 - d2 < sepsilon_: # they are externally tangent
+        elif sumRadii2 - d2 < tol: # they are externally tangent
             I = O1 - rho/(1-rho)*(O2-O1)
             k = rho * abs(dot_(I-O2) - r2*r2)
             out = Circle(I, sqrt(k))
-        elif d2 - (r1-r2)**2 < sepsilon_: # they are internally tangent
+        elif d2 - (r1-r2)**2 < tol: # they are internally tangent
             I = O1 + rho/(1+rho)*(O2-O1)
             k = rho * abs(dot_(I-O2) - r2*r2)
             out = Circle(I, sqrt(k))
@@ -810,9 +812,10 @@ def intersection_circle_circle(circ1, circ2):
     center2 = circ2.center
     d2 = dot_(center1 - center2)
     sumRadii2 = (r1 + r2)**2
-    if d2 == 0 or d2 > sumRadii2 + sepsilon_ or d2 < (r1-r2)**2 - sepsilon_:
+    tol = sepsilon_ * sumRadii2
+    if d2 == 0 or d2 > sumRadii2 + tol or d2 < (r1-r2)**2 - tol:
         return None
-    touch = sumRadii2 - d2 < sepsilon_ or d2 - (r1-r2)**2 < sepsilon_
+    touch = sumRadii2 - d2 < tol or d2 - (r1-r2)**2 < tol
     x, y = center1 - center2
     lsquared = x*x + y*y
     cosine = max(
-- 
2.43.0


From 3cf656de83c550c3b24fccf3b39ab8b6a60e7ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:47 +0000
Subject: [PATCH 38/62] fix: Inversion.invert_circle for a large circle through
 the pole, or a small circle close to it

---
 planegeometry/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 293d59f..6e5a567 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1551,7 +1551,7 @@ class Inversion:
         c1 = circ.center
         r1 = circ.radius
         D1 = (c1[0] - c0[0])**2 + (c1[1] - c0[1])**2 - r1*r1
-        if abs(D1) > sepsilon_:
+        if abs(D1) > sepsilon_ * r1*r1:
             s = k / D1
             return Circle(c0 + s*(c1-c0), abs(s)*r1)
         Ot = c0 - c1
-- 
2.43.0


From 48f07a46948b3bfba7b6ce0ee325c5dec3de2fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:49 +0000
Subject: [PATCH 39/62] fix: Inversion.from_swapping_two_circles tests the
 tangency relatively to the radii

---
 planegeometry/geometry.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 6e5a567..21886b5 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1634,9 +1634,10 @@ class Inversion:
         c2 = circ2.center
         r2 = circ2.radius
         c1c2 = distance_(c1, c2)
+        tol = sepsilon_ * (r1+r2)
         if r1 == r2:
             I = (c1 + c2) / 2
-            if abs(c1c2 - (r1+r2)) < sepsilon_: # they touch
+            if abs(c1c2 - (r1+r2)) < tol: # they touch
                 print("No possible inversion; returning a reflection")
                 x, y = c2 - c1
                 v = np.array([-y, x])
@@ -1652,11 +1653,11 @@ class Inversion:
             k = -abs(dot_(I - c2) - r2*r2)
             return Inversion(I, k)
         inside = inside_tangent = False
-        if max(r1, r2) >= c1c2 + min(r1, r2) - sepsilon_:
+        if max(r1, r2) >= c1c2 + min(r1, r2) - tol:
             inside = True
-            inside_tangent = max(r1, r2) <= c1c2 + min(r1, r2) + sepsilon_
+            inside_tangent = max(r1, r2) <= c1c2 + min(r1, r2) + tol
         if (not positive) and ((not inside) or inside_tangent):
-            they_intersect = c1c2 <= r1+r2 + sepsilon_
+            they_intersect = c1c2 <= r1+r2 + tol
             if they_intersect:
                 print("`positive = False` not possible; switching to `True`")
                 positive = True
-- 
2.43.0


From b06e446b247b4415a66ce48ef68484078496cb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:50 +0000
Subject: [PATCH 40/62] fix: Mobius.transform_line decides whether the line
 passes through the pole at any scale

---
 planegeometry/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 21886b5..cf83bd1 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2549,7 +2549,7 @@ class Mobius:
         gamma = gamma0.conjugate() * b * c.conjugate() + gamma0 * d.conjugate() * a + D0 * c.conjugate() *a
         D = D0 * mod2_(a) + 2 * (gamma0 * b.conjugate() * a).real
         # A=0 if and only if the line passes through the pole, or c=0
-        if abs(A) > sepsilon_ * (mod2_(c) + mod2_(d)):
+        if abs(A) > sepsilon_ * abs(c) * (abs(d) + abs(c) * (vlength_(line.A) + vlength_(line.B))):
             return Circle(from_complex_(-gamma/A), sqrt(mod2_(gamma)/A/A + D/A))
         P = line.A
         Q = line.B
-- 
2.43.0


From 196b451ce7d915f94d4ce5590511a4733e0a437f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:42 +0000
Subject: [PATCH 41/62] fix: Circle.radical_axis for circles with close centers

The axis is then far away, at a distance which makes the two points used to build
the line too close to each other for the Line constructor, which raised an error.
---
 planegeometry/geometry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index cf83bd1..1d3f8ff 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -581,6 +581,9 @@ class Circle:
         x, y = C2 - C1
         v = np.array([-y, x])
         R = self.radical_center(circ2)
+        if np.allclose(R, R+v):
+            # R is far away: take the second point at a comparable distance
+            v = v * sqrt(dot_(R) / dot_(v))
         return Line(R, R+v, True, True)
     
     def as_ellipse(self):
-- 
2.43.0


From 9f4fbc562eaaeb3c72d18af13ff243f8afda1f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:39 +0000
Subject: [PATCH 42/62] fix: Line.is_equal at any scale for lines close to the
 origin

The offsets were compared up to an absolute 1e-9, so that the same line given
by other points was not recognized when the coordinates are large.
---
 planegeometry/geometry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 1d3f8ff..98688dc 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -131,7 +131,9 @@ class Line:
             return False
         # opposite normal vectors: the offsets must be opposite as well
         sgn = 1 if cos(delta) > 0 else -1
-        return approx_equal_(do1["offset"], sgn * do2["offset"])
+        # rounding errors of the offsets are relative to the coordinates
+        tol = 1e-9 * max(1, vlength_(self.A), vlength_(line2.A))
+        return abs(do1["offset"] - sgn * do2["offset"]) <= tol
     
     def is_parallel(self, line2):
         """Check whether the reference line is parallel to another line.
-- 
2.43.0


From a0528b77248d7afaa76f3ebfe3a33585bbcb9c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:41 +0000
Subject: [PATCH 43/62] fix: Projection.get3x3matrix keeps its accuracy when
 the coordinates are large

The linear part was obtained as the difference of two projected points, which
loses all the digits of the offset of the line.
---
 planegeometry/geometry.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 98688dc..a438c20 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2854,11 +2854,12 @@ class Projection:
         
         """
         b = self.project((0, 0))
-        col1 = self.project((1, 0)) - b
-        col2 = self.project((0, 1)) - b
+        u = self.Delta.B - self.Delta.A
+        ab = unit_vector_(self.D.direction_offset()["direction"])
+        M = np.eye(2) - np.outer(u, ab) / dot_(ab, u)
         return np.hstack(
           (
-            np.vstack((np.column_stack((col1, col2)), np.array([[0.0, 0.0]]))),
+            np.vstack((M, np.array([[0.0, 0.0]]))),
             np.array([[b[0]], [b[1]], [1.0]])
           )
         )
-- 
2.43.0


From 2a493f49c2344437ab7824f729dc30e0b038fee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 44/62] fix: Triangle.malfatti_circles fails or is inaccurate
 for thin triangles

The half-angles were obtained with acos, which raises a math domain error or
loses half of the digits for small angles. tan(A/2) is r/(s-a).
---
 planegeometry/geometry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index a438c20..439d999 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2036,9 +2036,9 @@ class Triangle:
         r2 = halfr * (sminr - (IC+IA-IB)) / sminb
         r3 = halfr * (sminr - (IA+IB-IC)) / sminc
         # centers of Malfatti circles ####
-        d1 = r1 / tan(acos(dot_(C-A, B-A)/b/c)/2)
-        d2 = r2 / tan(acos(dot_(C-B, A-B)/a/c)/2)
-        d3 = r3 / tan(acos(dot_(A-C, B-C)/b/a)/2)
+        d1 = r1 * smina / r
+        d2 = r2 * sminb / r
+        d3 = r3 * sminc / r
         w = d1 + d2 + 2*sqrt(r1*r2)
         u = d2 + d3 + 2*sqrt(r2*r3)
         v = d3 + d1 + 2*sqrt(r3*r1)
-- 
2.43.0


From 125c5c3eceb554b685f5b6b7be81dacd33166e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:12 +0000
Subject: [PATCH 45/62] fix: Affine.transform_ellipse returned nan for very
 elongated images

The radii and the angle were obtained from the general equation of the image,
whose coefficients lose the small radius. Take them from the singular value
decomposition of the matrix of the images of the semi-axes.
---
 planegeometry/geometry.py | 31 +++++++------------------------
 1 file changed, 7 insertions(+), 24 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 439d999..4fe1824 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2238,32 +2238,15 @@ class Affine:
             return
         if isinstance(ell, Circle):
             ell = Circle.as_ellipse(ell)
-        A, B, C, D, E, F = ell.equation().values()
-        X = np.array([
-            [A, B/2, D/2],
-            [B/2, C, E/2],
-            [D/2, E/2, F]
-        ])
-        Mat = np.linalg.inv(self.get3x3matrix())
-        Y = np.matmul(np.matmul(np.transpose(Mat), X), Mat) 
-        A = Y[0,0]
-        B = 2 * Y[0,1]
-        C = Y[1,1]
-        D = 2 * Y[0,2]
-        E = 2 * Y[1,2]
-        F = Y[2,2]
-        Delta = B*B - 4*A*C
-        s = sqrt((A-C)**2 + B*B)
-        V = np.array([s, -s])
-        a, b = - np.sqrt(
-            2 * (A*E*E + C*D*D - B*D*E + Delta*F)*((A + C) + V)
-        ) / Delta 
-        x0 = (2*C*D - B*E) / Delta
-        y0 = (2*A*E - B*D) / Delta
-        theta = atan2(C - A - s, B)
         degrees = ell.degrees
+        v = unit_vector_(ell.alpha * pi/180 if degrees else ell.alpha)
+        w = np.array([-v[1], v[0]])
+        # images of the two semi-axes
+        M = np.matmul(self.A, np.column_stack((ell.rmajor*v, ell.rminor*w)))
+        U, (a, b), _ = np.linalg.svd(M)
+        theta = atan2(U[1, 0], U[0, 0])
         theta = (theta*180/pi) % 180 if degrees else (theta % pi)
-        return Ellipse((x0, y0), a, b, theta, degrees = degrees)
+        return Ellipse(self.transform(ell.center), a, b, theta, degrees = degrees)
     
     @classmethod
     def from_mapping_three_points(cls, P1, P2, P3, Q1, Q2, Q3):
-- 
2.43.0


From c275de64f38e127c59a368f1625962988221a8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:34 +0000
Subject: [PATCH 46/62] fix: centers of the Malfatti circles of thin triangles

The trilinear coordinates of the centers were obtained with the square root of a
difference of nearly equal numbers, which may be negative. Each center lies on
the bisector from its vertex and is the image of the incenter by a homothety.
---
 planegeometry/geometry.py | 23 ++++-------------------
 1 file changed, 4 insertions(+), 19 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 4fe1824..0b431a2 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2036,25 +2036,10 @@ class Triangle:
         r2 = halfr * (sminr - (IC+IA-IB)) / sminb
         r3 = halfr * (sminr - (IA+IB-IC)) / sminc
         # centers of Malfatti circles ####
-        d1 = r1 * smina / r
-        d2 = r2 * sminb / r
-        d3 = r3 * sminc / r
-        w = d1 + d2 + 2*sqrt(r1*r2)
-        u = d2 + d3 + 2*sqrt(r2*r3)
-        v = d3 + d1 + 2*sqrt(r3*r1)
-        d = sqrt((-u+v+w)*(u+v-w)*(u-v+w)*(u+v+w)) / 2
-        x = d/r1 - (v+w)
-        y = u
-        z = u # trilinear coordinates
-        O1 = (u*x*A + v*y*B + w*z*C) / (u*x + v*y + w*z)
-        x = v
-        y = d/r2 - (u+w)
-        z = v # trilinear coordinates
-        O2 = (u*x*A + v*y*B + w*z*C) / (u*x + v*y + w*z)
-        x = w
-        y = w
-        z = d/r3 - (u+v) # trilinear coordinates
-        O3 = (u*x*A + v*y*B + w*z*C) / (u*x + v*y + w*z)
+        # the homothety centered at a vertex maps the incircle to the Malfatti circle
+        O1 = A + r1/r * (I - A)
+        O2 = B + r2/r * (I - B)
+        O3 = C + r3/r * (I - C)
         circles = {
           "cA": Circle(center = O1, radius = r1),
           "cB": Circle(center = O2, radius = r2),
-- 
2.43.0


From 59dc67c7033bca82cd03d6bc9e79cee68a0f3cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 47/62] fix: Ellipse.shape_matrix does not depend on the center

It was extracted from the full equation, whose constant term swamps the radii
when the center is far from the origin: the matrix was inaccurate, or even not
positive, and then random_points failed.
---
 planegeometry/geometry.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 0b431a2..49a718b 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1169,14 +1169,9 @@ class Ellipse:
         The equation of the ellipse is `(M-O)' S (M-O) = 1`.
         
         """
-        A, B, C, D, E, F = self.equation().values()
-        X = np.array([
-            [A, B/2, D/2],
-            [B/2, C, E/2],
-            [D/2, E/2, F]            
-        ])
-        K = - np.linalg.det(X) / (A*C - B*B/4)
-        return X[0:2, 0:2] / K
+        A, B, C, _, _, _ = self.equation().values()
+        X = np.array([[A, B/2], [B/2, C]])
+        return X / (self.rmajor**2 * self.rminor**2)
     
     def theta2t(self, theta, degrees=True):
         """Convert angle to eccentric angle.
-- 
2.43.0


From 6765ad94e5fbfe4d4cbff5644429f44fe420249a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 48/62] fix: Ellipse.contains for ellipses whose center is far
 from the origin

The constant term of the equation swamps the radii. Use the coordinates relative
to the center, as in `includes`.
---
 planegeometry/geometry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 49a718b..eca2561 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1160,9 +1160,9 @@ class Ellipse:
         
         """
         _ = error_if_not_point_(P=P)
-        A, B, C, D, E, F = self.equation().values()
-        x, y = P
-        return A*x*x + B*x*y + C*y*y + D*x + E*y + F <= 0
+        A, B, C, _, _, _ = self.equation().values()
+        x, y = np.asarray(P, dtype=float) - self.center
+        return A*x*x + B*x*y + C*y*y <= self.rmajor**2 * self.rminor**2
     
     def shape_matrix(self):
         """The 2x2 symmetric matrix `S` associated to the reference ellipse. 
-- 
2.43.0


From 8920be2d5e2fbe5559a28f0aaa270728b548e65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:45 +0000
Subject: [PATCH 49/62] fix: points of a figure far from the origin, or of a
 tiny figure, are not confused

np.allclose compares coordinates up to 1e-5 times their size plus 1e-8.
With coordinates such as (500000, 4500000) points 40 units apart were taken
for the same point: lines could not be built, points off a line were
reported to be on it, and three points to be collinear.
---
 planegeometry/geometry.py | 5 +++--
 planegeometry/internal.py | 6 +++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index eca2561..8273af1 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -24,6 +24,7 @@ from .internal import (
     sepsilon_,
     ellipse_points_,
     collinear_,
+    same_point_,
     circle_points_,
     det2x2_mat_,
     from_complex_,
@@ -62,7 +63,7 @@ class Line:
         _ = error_if_not_point_(B=B)
         self.A = np.asarray(A, dtype=float)
         self.B = np.asarray(B, dtype=float)
-        if np.allclose(self.A, self.B):
+        if same_point_(self.A, self.B):
             raise ValueError("`A` and `B` must be distinct.")
         self.extendA = extendA
         self.extendB = extendB
@@ -227,7 +228,7 @@ class Line:
             print("M is on the line.")
             return Line(M, M + v, True, True)
         H = line_line_intersection_(A, B, M - v, M + v)
-        if np.allclose(H, M):
+        if same_point_(H, np.asarray(M, dtype=float)):
             print("M is on the line.")
             return Line(M, M + v, True, True)
         return Line(H, M, extendH, extendM)
diff --git a/planegeometry/internal.py b/planegeometry/internal.py
index 431b010..c550925 100644
--- a/planegeometry/internal.py
+++ b/planegeometry/internal.py
@@ -158,8 +158,12 @@ def circle_points_(t, O, r):
         )
     )
   
+def same_point_(A, B):
+    # rounding errors are relative to the coordinates
+    return distance_(A, B) <= 10 * sepsilon_ * max(vlength_(A), vlength_(B))
+
 def collinear_(A, B, C, tol = 0):
-    notdistinct = np.allclose(A, B) or np.allclose(A, C) or np.allclose(B, C)
+    notdistinct = same_point_(A, B) or same_point_(A, C) or same_point_(B, C)
     if notdistinct:
         return True
     AB = B - A
-- 
2.43.0


From 2e6a2bc60529312c540f4aa2337f606958233bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:18 +0000
Subject: [PATCH 50/62] fix: circles far from the origin or tiny are compared
 relatively to their size

Two circles of radius 20 whose centres (500000, 4500000) and
(500030, 4500000) are 30 apart were equal, and so were two circles of
radii 1e-10 and 2e-10 with the same center.
---
 planegeometry/geometry.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 8273af1..69e87ac 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -391,9 +391,11 @@ class Circle:
         """
         if not isinstance(circ2, Circle):
             raise ValueError("`circ2` is not a `Circle` object.")
+        r = max(self.radius, circ2.radius)
+        c = max(vlength_(self.center), vlength_(circ2.center))
         return (
-            approx_equal_(self.radius, circ2.radius) and 
-            np.allclose(self.center, circ2.center)
+            isclose(self.radius, circ2.radius, abs_tol=1e-12*c) and
+            bool(distance_(self.center, circ2.center) <= 1e-8*r + 1e-12*c)
         )
         
     def includes(self, P):
-- 
2.43.0


From 052e18a4a2918b1249473856368764ee58c74fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:19 +0000
Subject: [PATCH 51/62] fix: radical axis, mid-circles and circles through
 points far from the origin

The centres or points were said not to be distinct when their coordinates
agree up to 1e-5 of their size.
---
 planegeometry/geometry.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 69e87ac..3ba4b20 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -474,7 +474,7 @@ class Circle:
         _ = error_if_not_boolean_(arc=arc)
         P1 = np.asarray(P1, dtype=float)
         P2 = np.asarray(P2, dtype=float)
-        if np.allclose(P1, P2):
+        if same_point_(P1, P2):
             raise ValueError("`P1` and `P2` must be distinct.")
         I = self.center
         r = self.radius
@@ -580,13 +580,13 @@ class Circle:
             raise ValueError("`circ2` is not a `Circle` object.")
         C1 = self.center
         C2 = circ2.center
-        if np.allclose(C1, C2):
+        if same_point_(C1, C2):
             print("The two circles must have distinct centers.")
             return None
         x, y = C2 - C1
         v = np.array([-y, x])
         R = self.radical_center(circ2)
-        if np.allclose(R, R+v):
+        if same_point_(R, R+v):
             # R is far away: take the second point at a comparable distance
             v = v * sqrt(dot_(R) / dot_(v))
         return Line(R, R+v, True, True)
@@ -669,7 +669,7 @@ def circleAB(A, B):
     _ = error_if_not_point_(B=B)
     A = np.asarray(A, dtype=float)
     B = np.asarray(B, dtype=float)
-    if np.allclose(A, B):
+    if same_point_(A, B):
         raise ValueError("`A` and `B` are not distinct.")
     return Circle((A+B)/2, distance_(A, B)/2)
 
@@ -684,7 +684,7 @@ def circleOA(O, A):
     _ = error_if_not_point_(O=O)
     A = np.asarray(A, dtype=float)
     O = np.asarray(O, dtype=float)
-    if np.allclose(O, A):
+    if same_point_(O, A):
         raise ValueError("`O` and `A` are not distinct.")
     return Circle(O, distance_(O, A))
 
@@ -729,7 +729,7 @@ def mid_circles(circ1, circ2):
     O1 = circ1.center
     O2 = circ2.center
     if r1 == r2:
-        if np.allclose(O1, O2): # O1=O2
+        if same_point_(O1, O2): # O1=O2
             print("The two circles are equal; every diameter is a mid-circle.")
             out = circ1
         else:
-- 
2.43.0


From efcbf62adf4ed104d43c9cbae4bc9d1d621d07b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:21 +0000
Subject: [PATCH 52/62] fix: membership and orthogonality of tiny circles

The squared lengths were compared up to an absolute 1e-9: a circle of radius
1e-5 was said to include its center and to be orthogonal to itself.
---
 planegeometry/geometry.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 3ba4b20..667e2ad 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -21,6 +21,7 @@ from .internal import (
     line_line_intersection_,
     circle_line_intersection_, 
     unit_vector_,
+    epsilon_,
     sepsilon_,
     ellipse_points_,
     collinear_,
@@ -409,8 +410,9 @@ class Circle:
         P = np.asarray(P, dtype=float)
         r = self.radius
         O = self.center
-        d2 = dot_(P-O)
-        return approx_equal_(d2, r*r)
+        # the coordinates are rounded
+        tol = 4 * epsilon_ * max(vlength_(P), vlength_(O))
+        return isclose(distance_(P, O), r, abs_tol=tol)
 
     def contains(self, P):
         """Check whether a point is contained in the reference circle.
@@ -631,7 +633,9 @@ class Circle:
         d2 = dot_(self.center - circ2.center)
         r = self.radius
         r2 = circ2.radius
-        return approx_equal_(d2, r*r + r2*r2)
+        # the coordinates are rounded
+        tol = 8 * epsilon_ * sqrt(d2) * max(vlength_(self.center), vlength_(circ2.center))
+        return isclose(d2, r*r + r2*r2, abs_tol=tol)
     
     def angle(self, circ2):
         """Angle between the reference circle and a given circle, if they intersect.
-- 
2.43.0


From b49a598a07202087c999ba27ded0f2d09abdac04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:25 +0000
Subject: [PATCH 53/62] fix: inversion of points close to a pole far from the
 origin, or of tiny figures

A point was taken for the pole when its coordinates were the same up to 1e-5
of their size or up to 1e-8: its image was `inf`. Now the pole is told by
an image a hundred million times farther than the radius of inversion.
---
 planegeometry/geometry.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 667e2ad..eca036d 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1544,10 +1544,11 @@ class Inversion:
             return pole
         _ = error_if_not_point_(M=M)
         M = np.asarray(M)
-        if np.allclose(pole, M):
-            return inf
         k = self.power
         pole_M = M - pole
+        # `M` is the pole up to rounding errors
+        if vlength_(pole_M) <= sepsilon_ * sqrt(abs(k)) + 4 * epsilon_ * vlength_(pole):
+            return inf
         return pole + k/dot_(pole_M) * pole_M
     
     def invert_circle(self, circ):
-- 
2.43.0


From 7df63c42ea0944f8406a47720c02956779684c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:26 +0000
Subject: [PATCH 54/62] fix: ellipses far from the origin or tiny are compared
 relatively to their size

Ellipses whose coordinates agree up to 1e-5 of the coordinates plus 1e-8 were
equal, for example any two ellipses of radii less than 1e-8 around the origin.
---
 planegeometry/geometry.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index eca036d..32cf3b1 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1002,19 +1002,21 @@ class Ellipse:
             ell2 = ell2.as_ellipse()
         if not isinstance(ell2, Ellipse):
             raise ValueError("`ell2` must be an `Ellipse` object or a `Circle` object.")
-        x1, y1 = self.center
         alpha1 = self.alpha
         if not self.degrees:
             alpha1 *= 180/pi
-        x2, y2 = ell2.center
         alpha2 = ell2.alpha
         if not ell2.degrees:
             alpha2 *= 180/pi
-        v1 = np.array([x1, y1, self.rmajor, self.rminor])
-        v2 = np.array([x2, y2, ell2.rmajor, ell2.rminor])
-        if not np.allclose(v1, v2):
+        c = max(vlength_(self.center), vlength_(ell2.center))
+        tol = 1e-5 * min(self.rmajor, self.rminor) + 1e-12 * c
+        if (
+            distance_(self.center, ell2.center) > tol or
+            not isclose(self.rmajor, ell2.rmajor, rel_tol=1e-5) or
+            not isclose(self.rminor, ell2.rminor, rel_tol=1e-5)
+        ):
             return False
-        if np.isclose(self.rmajor, self.rminor): # the angle is irrelevant
+        if isclose(self.rmajor, self.rminor, rel_tol=1e-5): # the angle is irrelevant
             return True
         # the angles are defined modulo 180 degrees
         return bool(np.isclose((alpha1 - alpha2 + 90) % 180, 90))
-- 
2.43.0


From 1f15c1cb3c23814a1651423fcfa3db5f34b64b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:51 +0000
Subject: [PATCH 55/62] fix: intersection of lines far from the origin loses no
 accuracy

The coordinates are counted from the first point: the determinants of points
far from the origin cancel out.
---
 planegeometry/internal.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/planegeometry/internal.py b/planegeometry/internal.py
index c550925..4b3f3c4 100644
--- a/planegeometry/internal.py
+++ b/planegeometry/internal.py
@@ -101,12 +101,9 @@ def line_line_intersection_(P1, P2, Q1, Q2):
     D = det2x2_((dx1, dy1), (dx2, dy2))
     if D == 0:
         return None
-    D1 = det2x2_(P1, P2)
-    D2 = det2x2_(Q1, Q2)
-    return np.array([
-      det2x2_((D1, dx1), (D2, dx2)),
-      det2x2_((D1, dy1), (D2, dy2))
-    ]) / D
+    # `P1` is the origin, so the determinant of `P1` and `P2` is null
+    D2 = det2x2_(Q1 - P1, Q2 - P1)
+    return P1 - np.array([dx1, dy1]) * D2 / D
 
 def circle_line_intersection_(A1, A2, r):
     x1, y1 = A1
-- 
2.43.0


From 3f3bed70724447b3d126fa2ea26abb849cc9470a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:53 +0000
Subject: [PATCH 56/62] fix: angle of circles far from the origin loses no
 accuracy

It depends only on the distance between the centers and on the radii.
---
 planegeometry/geometry.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 32cf3b1..6f6d82a 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -653,13 +653,7 @@ class Circle:
         if d2 > (r1+r2)**2 + tol or d2 < (r1-r2)**2 - tol:
             print("The two circles do not intersect.")
             return None
-        b1 = 1/r1
-        b2 = 1/r2
-        a1 = b1*center1
-        a2 = b2*center2
-        bprime1 = r1 * (dot_(a1) - 1)
-        bprime2 = r2 * (dot_(a2) - 1)
-        cos_theta = b1*bprime2/2 + b2*bprime1/2 - dot_(a1, a2)
+        cos_theta = (d2 - r1*r1 - r2*r2) / (2*r1*r2)
         return acos(max(min(cos_theta, 1), -1))
 
 def circleAB(A, B):
-- 
2.43.0


From 97aa3151febc4d1453e5f20b24345890741d8b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:55 +0000
Subject: [PATCH 57/62] fix: circumcircle of a triangle far from the origin

The center was wrong by 1e-4 for a triangle of size 1 around (10000, 10000).
---
 planegeometry/geometry.py | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 6f6d82a..ed9bdd8 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1933,21 +1933,15 @@ class Triangle:
         A = self.A
         B = self.B
         C = self.C
-        q = np.array([dot_(A), dot_(B), dot_(C)])
-        ABC = np.array([A, B, C])
-        ones = np.array([[1.0], [1.0], [1.0]])
-        Dx = np.linalg.det(
-            np.hstack(
-                (np.column_stack((q, ABC[:, 1])), ones)
-            )
-        )
-        Dy = - np.linalg.det(
-            np.hstack(
-                (np.column_stack((q, ABC[:, 0])), ones)
-            )
-        )
-        center = np.array([Dx, Dy]) / np.linalg.det(np.hstack((ABC, ones))) / 2
-        return Circle(center, distance_(center, A))
+        # take A as the origin
+        AB = B - A
+        AC = C - A
+        AB2 = dot_(AB)
+        AC2 = dot_(AC)
+        Dx = det2x2_((AB2, AB[1]), (AC2, AC[1]))
+        Dy = det2x2_((AB[0], AB2), (AC[0], AC2))
+        A_center = np.array([Dx, Dy]) / det2x2_(AB, AC) / 2
+        return Circle(A + A_center, vlength_(A_center))
     
     def excircles(self):
         """The excircles of the triangle.
-- 
2.43.0


From bca7888c878f26e67b463c701998fee131567d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:57 +0000
Subject: [PATCH 58/62] fix: ellipse through five points far from the origin

For an ellipse of size 5 around (1000, 0) the result was wrong by 1e-4,
and around (100000, 0) the points were said not to lie on an ellipse.
---
 planegeometry/geometry.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index ed9bdd8..3139fdb 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1318,9 +1318,18 @@ class Ellipse:
         :returns: An `Ellipse` object.
         
         """
-        coeffs = Ellipse.equation_from_five_points(P1, P2, P3, P4, P5)
+        _ = error_if_not_point_(P1=P1)
+        # take P1 as the origin: the coefficients of the equation of an ellipse
+        # far from the origin do not determine it accurately
+        O = np.asarray(P1, dtype=float)
+        for P in (P2, P3, P4, P5):
+            _ = error_if_not_point_(P=P)
+        points = [np.asarray(P, dtype=float) - O for P in (P1, P2, P3, P4, P5)]
+        coeffs = Ellipse.equation_from_five_points(*points)
         A, B, C, D, E, F = coeffs.values()
-        return Ellipse.from_equation(A, B, C, D, E, F)
+        ell = Ellipse.from_equation(A, B, C, D, E, F)
+        ell.center = ell.center + O
+        return ell
     
     @classmethod
     def from_center_and_matrix(cls, center, S):
-- 
2.43.0


From 01ac5e3da4065b7aff20b33e5ec56d5456cc8542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:17 +0000
Subject: [PATCH 59/62] =?UTF-8?q?fix:=20generalized=20power=20of=20parabol?=
 =?UTF-8?q?ic=20M=C3=B6bius=20maps=20whatever=20the=20scale=20of=20the=20m?=
 =?UTF-8?q?atrix?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

A parabolic map given by a matrix with small entries, such as a translation by
1e-8 or a multiple of any matrix by 1e-9, was taken for the identity map.
---
 planegeometry/geometry.py | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 3139fdb..ddf28db 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2397,24 +2397,9 @@ class Mobius:
         trM = M[0, 0] + M[1, 1]
         if abs(trM*trM - 4*detM) < sepsilon_ * abs(detM):
             alpha = trM / 2
-            D = np.diag((alpha, alpha))
-            if np.allclose(M, D):
-                alpha_t = alpha**t
-                return Mobius(np.diag((alpha_t, alpha_t)))
-            N = M - D
-            if np.allclose(N[:, 1], np.zeros((2,))):
-                v2 = np.array([1.0, 0.0])
-                v1 = N[:, 0]
-            else:
-                v2 = np.array([0.0, 1.0])
-                v1 = N[:, 1]
-            P = np.column_stack((v1, v2))
-            alpha_t = alpha**t
-            Jt = np.array([
-                    [alpha_t, t*alpha**(t-1)],
-                    [0.0, alpha_t]
-                ])
-            return Mobius(np.matmul(np.matmul(P, Jt), np.linalg.inv(P)))
+            # the square of `N` is null
+            N = M - np.diag((alpha, alpha))
+            return Mobius(alpha**t * np.eye(2) + t*alpha**(t-1) * N)
         eigen_values, eigen_vectors = np.linalg.eig(M)
         Dt = np.diag(eigen_values**t)
         return Mobius(
-- 
2.43.0


From 183dfd3f580d43f1ee06d156a5e6ba45ee63145b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:03 +0000
Subject: [PATCH 60/62] fix: image by an inversion of a circle through the
 pole, far from the origin

The line was built from two points whose distance is about the power over the
radius, which can be negligible compared to the coordinates.
---
 planegeometry/geometry.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index ddf28db..9410493 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1568,9 +1568,10 @@ class Inversion:
             s = k / D1
             return Circle(c0 + s*(c1-c0), abs(s)*r1)
         Ot = c0 - c1
-        R180 = c1 - Ot
-        R90 = np.array([-Ot[1], Ot[0]]) + c1
-        return Line(self.invert(R180), self.invert(R90))
+        H = self.invert(c1 - Ot)
+        # the line is orthogonal to the line of the centers
+        v = np.array([-Ot[1], Ot[0]])
+        return Line(H, H + max(1, distance_(c0, H) / r1) * v)
 
     def invert_line(self, line):
         if not isinstance(line, Line):
-- 
2.43.0


From bb08eb54d7c65118cb5b32bf16f92188788397d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:50 +0000
Subject: [PATCH 61/62] fix: equality of lines of a tiny figure

Offsets less than 1e-9 were equal whatever the coordinates.
---
 planegeometry/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 9410493..8a93248 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -134,7 +134,7 @@ class Line:
         # opposite normal vectors: the offsets must be opposite as well
         sgn = 1 if cos(delta) > 0 else -1
         # rounding errors of the offsets are relative to the coordinates
-        tol = 1e-9 * max(1, vlength_(self.A), vlength_(line2.A))
+        tol = 1e-9 * max(map(vlength_, (self.A, self.B, line2.A, line2.B)))
         return abs(do1["offset"] - sgn * do2["offset"]) <= tol
     
     def is_parallel(self, line2):
-- 
2.43.0


From 2583f401ff3469a0faa1aa530d5d5afa1ebef66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:05 +0000
Subject: [PATCH 62/62] fix: mid-circles and swapping inversion of circles of
 the same radius up to rounding errors

The radii 0.1+0.2 and 0.3 gave a mid-circle centred 1e16 away, which sends the
first circle far from the second one.
---
 planegeometry/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 8a93248..f055209 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -726,7 +726,7 @@ def mid_circles(circ1, circ2):
     r2 = circ2.radius
     O1 = circ1.center
     O2 = circ2.center
-    if r1 == r2:
+    if isclose(r1, r2, rel_tol=sepsilon_): # r1=r2
         if same_point_(O1, O2): # O1=O2
             print("The two circles are equal; every diameter is a mid-circle.")
             out = circ1
@@ -1649,7 +1649,7 @@ class Inversion:
         r2 = circ2.radius
         c1c2 = distance_(c1, c2)
         tol = sepsilon_ * (r1+r2)
-        if r1 == r2:
+        if isclose(r1, r2, rel_tol=sepsilon_):
             I = (c1 + c2) / 2
             if abs(c1c2 - (r1+r2)) < tol: # they touch
                 print("No possible inversion; returning a reflection")
-- 
2.43.0

