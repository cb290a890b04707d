From b16aee6ac2465ad8f93088b3c62502e969430d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:10 +0000
Subject: [PATCH 01/19] fix: Ellipse.from_boundary4 uses np.float, which numpy
 no longer has

---
 planegeometry/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 789bf95..63c9212 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1358,13 +1358,13 @@ class Ellipse:
     
         # shear parallel to x-axis to make diagonals perpendicular
         m = (points[1, 0] - points[3, 0]) / (points[3, 1] - points[1, 1])
-        shear_mat = np.array([[1, m], [0, 1]], dtype=np.float)
+        shear_mat = np.array([[1, m], [0, 1]], dtype=float)
         points = shear_mat.dot(points.T).T
     
         # make the quadrilateral cyclic (i.e. all vertices lie on a circle)
         b = np.linalg.norm(points, axis=1)
         d = b[1] * b[3] / (b[2] * b[0])
-        stretch_mat = np.diag(np.array([d ** .25, d ** -.25], dtype=np.float))
+        stretch_mat = np.diag(np.array([d ** .25, d ** -.25], dtype=float))
         points = stretch_mat.dot(points.T).T
     
         # compute optimal swing angle by solving cubic equation
-- 
2.43.0


From 134ab0c673a95b78f9992a4a19f48140a14c698d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:10 +0000
Subject: [PATCH 02/19] fix: Ellipse.from_equation rejects valid ellipses that
 are far from the origin

---
 planegeometry/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 63c9212..f28e65f 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1224,10 +1224,10 @@ class Ellipse:
         :returns: An `Ellipse` object.
         
         """
-        if A*C <= 0 or B*B-4*A*C >= 0 or D*D + E*E <= 4*(A+C)*F:
+        if A*C <= 0 or B*B-4*A*C >= 0:
             raise ValueError("These parameters do not define an ellipse.")
         Q = np.array([[2*A, B, D], [B, 2*C, E], [D, E, 2*F]])
-        if np.linalg.det(Q) == 0:
+        if np.linalg.det(Q) * (A+C) >= 0:
             raise ValueError("These parameters do not define an ellipse.")
         M0 = np.array([F, D/2, E/2, D/2, A, B/2, E/2, B/2, C]).reshape((3,3))
         M = np.array([[A, B/2], [B/2, C]])
-- 
2.43.0


From 429cfc31c5a5d0403ad852ae0cc6817387e67481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:10 +0000
Subject: [PATCH 03/19] fix: Ellipse.from_equation gives the wrong direction
 when A == C and B != 0

---
 planegeometry/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index f28e65f..3a26e49 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1237,7 +1237,7 @@ class Ellipse:
         a = sqrt(-detM0 / (detM * eigvals[0]))
         b = sqrt(-detM0 / (detM * eigvals[1]))
         xy = np.array([B*E - 2*C*D, B*D - 2*A*E])
-        phi = 0.0 if A == C else (atan(B/(A-C))/2 if abs(C) > abs(A) else pi/2 - atan(-B/(A-C))/2)
+        phi = (0.0 if B == 0 else (pi/4 if A*B < 0 else 3*pi/4)) if A == C else (atan(B/(A-C))/2 if abs(C) > abs(A) else pi/2 - atan(-B/(A-C))/2)
         return Ellipse(xy/(4*A*C - B*B), max(a,b), min(a,b), (phi*180/pi) % 180)
     
     @classmethod
-- 
2.43.0


From 59f5c7c7590d68c6ea2b1a1fb9a2b25b387e8221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:10 +0000
Subject: [PATCH 04/19] fix: Ellipse.from_boundary4 may take a complex root
 instead of the real one

---
 planegeometry/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 3a26e49..fb13d55 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1377,8 +1377,8 @@ class Ellipse:
         coeff[3] = coeff[1] / 2.
         rts = np.roots(coeff)
         # take the unique root in the interval (-1, 1)
-        rts = rts[(-1 < rts) & (rts < 1)]
-        theta = asin(np.real(rts[0]))
+        rts = np.real(rts[np.isreal(rts)])
+        theta = asin(rts[np.argmin(np.abs(rts))])
     
         # apply transformation D_theta
         D_mat = np.array([[cos(theta) ** -.5,
-- 
2.43.0


From 991d3698f900174e65925d3226c3207f24a6f432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:40 +0000
Subject: [PATCH 05/19] fix: LownerJohnEllipse fails on duplicated or collinear
 points

Sub-problems with collinear boundary points have no ellipse: depending on the
random pivots the search raised an error, or returned None, or a wrong ellipse.
---
 planegeometry/geometry.py |  4 ++++
 planegeometry/internal.py | 16 ++++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index fb13d55..0b863d5 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -21,6 +21,7 @@ from .internal import (
     line_line_intersection_,
     circle_line_intersection_, 
     unit_vector_,
+    convex_hull_,
     sepsilon_,
     ellipse_points_,
     collinear_,
@@ -1442,6 +1443,9 @@ class Ellipse:
         """
         if bpoints is None:
             bpoints = np.empty((0,2))
+            # the vertices of the convex hull determine the ellipse; there are
+            # no equal points and no collinear triples among them
+            ipoints = convex_hull_(ipoints)
         # stopping condition: stop either if interior is empty or if there are 5
         # points on the boundary, in which case a unique ellipse is determined.
         if ipoints.shape[0] == 0 or bpoints.shape[0] >= 5:
diff --git a/planegeometry/internal.py b/planegeometry/internal.py
index f8a5a30..8f68361 100644
--- a/planegeometry/internal.py
+++ b/planegeometry/internal.py
@@ -263,3 +263,19 @@ def mobius_from_three_points_to_zero_one_inf_(z1 ,z2, z3):
     K = (z2 - z3) / (z2 - z1)
     return np.array([[K, -K*z1], [1, -z3]])
 
+def convex_hull_(points):
+    points = np.unique(points, axis=0)
+    if len(points) == 0:
+        return points
+    tol = 1e-7 * np.max(np.ptp(points, axis=0))
+    def half_hull(points):
+        hull = []
+        for P in points:
+            while len(hull) >= 2 and det2x2_(
+                hull[-1] - hull[-2], P - hull[-2]
+            ) <= tol * np.linalg.norm(P - hull[-2]):
+                hull.pop()
+            hull.append(P)
+        return hull[:-1]
+    return np.array(half_hull(points) + half_hull(points[::-1])).reshape((-1, 2))
+
-- 
2.43.0


From 2c1ca67ced3c4cede95787850a1fff8bba6b460c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:40 +0000
Subject: [PATCH 06/19] fix: LownerJohnEllipse exhausts the stack when there
 are many points

The recursion went one level deeper per point; a few thousand points in convex
position crashed the interpreter.
---
 planegeometry/geometry.py | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 0b863d5..95db2dc 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1463,25 +1463,18 @@ class Ellipse:
             else:
                 return Ellipse.from_five_points(*bpoints)
 
-        # choose a random point in the interior set
-        i = np.random.randint(ipoints.shape[0])
-        p = ipoints[i, :]
-    
-        # remove point from interior set
-        ipoints_wo_p = np.delete(ipoints, i, 0)
-    
-        # recursively call the function to find the smallest ellipse containing
-        # the interior points without p
-        ellipse = Ellipse.LownerJohnEllipse(ipoints_wo_p, bpoints)
-    
-        # if p is in this ellipse, then this ellipse is also the smallest ellipse
-        # containing interior
-        if (not ellipse is None) and ellipse.contains(p):
-            return ellipse
-    
-        # if not, then p must be on the boundary of the smallest ellipse
-        else:
-            return Ellipse.LownerJohnEllipse(ipoints_wo_p, np.vstack([bpoints, p]))
+        # take the points of the interior set one by one, in random order
+        ipoints = np.random.permutation(ipoints)
+        ellipse = Ellipse.LownerJohnEllipse(ipoints[:0, :], bpoints)
+        for i, p in enumerate(ipoints):
+
+            # if p is in the ellipse of the previous points, then this ellipse 
+            # is also the smallest ellipse containing the previous points and p
+            # if not, then p must be on the boundary of the smallest ellipse
+            if ellipse is None or not ellipse.contains(p):
+                ellipse = Ellipse.LownerJohnEllipse(ipoints[:i, :], np.vstack([bpoints, p]))
+
+        return ellipse
 
 
 # def circle_as_ellipse_(C):
-- 
2.43.0


From 3836989b4f3103972ad8172898cc597d04d55041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:14 +0000
Subject: [PATCH 07/19] fix: the affine transformations swallow interrupts and
 foreign errors

A bare except turned KeyboardInterrupt, MemoryError or an error raised by the
argument itself into "Invalid `M` argument".
---
 planegeometry/geometry.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 95db2dc..0c5fdff 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2879,7 +2879,7 @@ class Rotation:
         """
         try:
             M = np.asarray(M, dtype=float)
-        except:
+        except (TypeError, ValueError, OverflowError):
             raise ValueError("Invalid `M` argument.")
         M_is_point = False
         if is_real_vector_(M):
@@ -3102,7 +3102,7 @@ class Shear:
         """
         try:
             M = np.asarray(M, dtype=float)
-        except:
+        except (TypeError, ValueError, OverflowError):
             raise ValueError("Invalid `M` argument.")
         M_is_point = False
         if is_real_vector_(M):
@@ -3163,7 +3163,7 @@ class ScalingXY:
         """
         try:
             M = np.asarray(M, dtype=float)
-        except:
+        except (TypeError, ValueError, OverflowError):
             raise ValueError("Invalid `M` argument.")
         M_is_point = False
         if is_real_vector_(M):
@@ -3228,7 +3228,7 @@ class Homothety:
         """
         try:
             M = np.asarray(M, dtype=float)
-        except:
+        except (TypeError, ValueError, OverflowError):
             raise ValueError("Invalid `M` argument.")
         M_is_point = False
         if is_real_vector_(M):
@@ -3339,7 +3339,7 @@ class Scaling:
         """
         try:
             M = np.asarray(M, dtype=float)
-        except:
+        except (TypeError, ValueError, OverflowError):
             raise ValueError("Invalid `M` argument.")
         M_is_point = False
         if is_real_vector_(M):
-- 
2.43.0


From 80b5ec3cea24a6ab7baee73f1368152401578467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:59 +0000
Subject: [PATCH 08/19] fix: Projection.show fails with AttributeError

---
 planegeometry/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 0c5fdff..a63cf1d 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2790,8 +2790,8 @@ class Projection:
         print("Projection onto the line `D` passing through `A` and `B` parallel to the line `Delta` passing through `P` and `Q`.\n")
         print("                 A: ", self.D.A, "\n")
         print("                 B: ", self.D.B, "\n")
-        print("                 P: ", self.Delta.P, "\n")
-        print("                 Q: ", self.Delta.Q, "\n")
+        print("                 P: ", self.Delta.A, "\n")
+        print("                 Q: ", self.Delta.B, "\n")
         if self.orthogonal:
             print("This is an orthogonal projection.\n")
 
-- 
2.43.0


From bf6c5ed4ed33a9f54df2d85e69f6bda445f3a4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:59 +0000
Subject: [PATCH 09/19] fix: objects share the coordinate arrays they are built
 from

Writing to the array given to a constructor, or to an array held by another
object, changed the object as well. The constructors now take copies.
---
 planegeometry/geometry.py | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index a63cf1d..b474fb7 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -61,8 +61,8 @@ class Line:
     def __init__(self, A, B, extendA=True, extendB=True):
         _ = error_if_not_point_(A=A)
         _ = error_if_not_point_(B=B)
-        self.A = np.asarray(A, dtype=float)
-        self.B = np.asarray(B, dtype=float)
+        self.A = np.array(A, dtype=float)
+        self.B = np.array(B, dtype=float)
         if np.allclose(self.A, self.B):
             raise ValueError("`A` and `B` must be distinct.")
         self.extendA = extendA
@@ -363,7 +363,7 @@ class Circle:
         _ = error_if_not_point_(center=center)
         _ = error_if_not_number_(radius=radius)
         _ = error_if_not_positive_(radius=radius)
-        self.center = np.asarray(center, dtype=float)
+        self.center = np.array(center, dtype=float)
         self.radius = radius
         
     def __str__(self):
@@ -870,7 +870,7 @@ class Arc:
         _ = error_if_not_number_(alpha1=alpha1)
         _ = error_if_not_number_(alpha2=alpha2)
         _ = error_if_not_boolean_(degrees=degrees)
-        self.center = np.asarray(center, dtype=float)
+        self.center = np.array(center, dtype=float)
         self.radius = radius
         self.alpha1 = alpha1
         self.alpha2 = alpha2
@@ -953,7 +953,7 @@ class Ellipse:
         _ = error_if_not_positive_(rminor=rminor)
         _ = error_if_not_number_(alpha=alpha)
         _ = error_if_not_boolean_(degrees=degrees)
-        self.center = np.asarray(center, dtype=float)
+        self.center = np.array(center, dtype=float)
         self.rmajor = rmajor
         self.rminor = rminor
         self.alpha = alpha
@@ -1491,7 +1491,7 @@ class Inversion:
     def __init__(self, pole, power):
         _ = error_if_not_point_(pole=pole)
         _ = error_if_not_number_(power=power)
-        self.pole = np.asarray(pole, dtype=float)
+        self.pole = np.array(pole, dtype=float)
         self.power = power
         
     def __str__(self):
@@ -1740,9 +1740,9 @@ class Triangle:
         _ = error_if_not_point_(A=A)
         _ = error_if_not_point_(B=B)
         _ = error_if_not_point_(C=C)
-        self.A = np.asarray(A, dtype=float)
-        self.B = np.asarray(B, dtype=float)
-        self.C = np.asarray(C, dtype=float)
+        self.A = np.array(A, dtype=float)
+        self.B = np.array(B, dtype=float)
+        self.C = np.array(C, dtype=float)
         
     def __str__(self):
         return str(self.__dict__)
@@ -2123,10 +2123,10 @@ class Affine:
     """
     def __init__(self, A, b):
         _ = error_if_not_point_(b=b)
-        self.A = np.asarray(A, dtype=float)
+        self.A = np.array(A, dtype=float)
         if self.A.ndim != 2 or self.A.shape != (2,2):
             raise ValueError("`A` cannot be converted to a 2x2 matrix.")
-        self.b = np.asarray(b, dtype=float)
+        self.b = np.array(b, dtype=float)
         
     def __str__(self):
         return str(self.__dict__)
@@ -2316,7 +2316,7 @@ class Mobius:
     
     """
     def __init__(self, M):
-        self.M = np.asarray(M, dtype=complex)
+        self.M = np.array(M, dtype=complex)
         
     def __str__(self):
         return str(self.__dict__)
@@ -2856,7 +2856,7 @@ class Rotation:
         _ = error_if_not_point_(center=center)
         _ = error_if_not_number_(theta=theta)
         _ = error_if_not_boolean_(degrees=degrees)
-        self.center = np.asarray(center, dtype=float)
+        self.center = np.array(center, dtype=float)
         self.theta = theta
         self.degrees = degrees
         
@@ -3053,8 +3053,8 @@ class Shear:
         else:
             if angle <= -pi/2 or angle >= pi/2:
                 raise ValueError("`angle` must be strictly between -90 degrees and 90 degrees.")            
-        self.vertex = np.asarray(vertex, dtype=float)
-        self.vector = np.asarray(vector, dtype=float)
+        self.vertex = np.array(vertex, dtype=float)
+        self.vector = np.array(vector, dtype=float)
         self.ratio = ratio
         self.angle = angle
         self.degrees = degrees
@@ -3141,7 +3141,7 @@ class ScalingXY:
         _ = error_if_not_point_(center=center)
         _ = error_if_not_number_(sx=sx)
         _ = error_if_not_number_(sy=sy)
-        self.center = np.asarray(center, dtype=float)
+        self.center = np.array(center, dtype=float)
         self.sx = sx
         self.sy = sy
         
@@ -3208,7 +3208,7 @@ class Homothety:
         """
         _ = error_if_not_point_(center=center)
         _ = error_if_not_number_(scale=scale)
-        self.center = np.asarray(center, dtype=float)
+        self.center = np.array(center, dtype=float)
         self.scale = scale
         
     def __str__(self):
@@ -3299,8 +3299,8 @@ class Scaling:
         _ = error_if_not_point_(center=center)
         _ = error_if_not_vector_(direction=direction)
         _ = error_if_not_number_(scale=scale)
-        self.center = np.asarray(center, dtype=float)
-        self.direction = np.asarray(direction, dtype=float)
+        self.center = np.array(center, dtype=float)
+        self.direction = np.array(direction, dtype=float)
         self.scale = scale
         
     def __str__(self):
-- 
2.43.0


From 1d63cf05c9d2e168b2d226741aaa02b4cfc26ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:59 +0000
Subject: [PATCH 10/19] fix: some results share memory with the receiver or the
 arguments

Inversion.invert(inf), Inversion.invert_line, mid_circles,
intersection_circle_circle, Reflection.transform and Projection.project returned
an internal array or one of the arguments; changing the result changed them.
---
 planegeometry/geometry.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index b474fb7..e969ec0 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -717,7 +717,7 @@ def mid_circles(circ1, circ2):
     if r1 == r2:
         if np.allclose(O1, O2): # O1=O2
             print("The two circles are equal; every diameter is a mid-circle.")
-            out = circ1
+            out = Circle(O1, r1)
         else:
             d2 = dot_(O1 - O2)
             sumRadii2 = (r1 + r2)**2
@@ -798,7 +798,7 @@ def intersection_circle_circle(circ1, circ2):
     if not isinstance(circ2, Circle):
         raise ValueError("`circ2` is not a `Circle` object.")
     if circ1.is_equal(circ2):
-        return circ1
+        return Circle(circ1.center, circ1.radius)
     r1 = circ1.radius
     r2 = circ2.radius
     center1 = circ1.center
@@ -1505,7 +1505,7 @@ class Inversion:
     def invert(self, M):
         pole = self.pole
         if is_inf_(M):
-            return pole
+            return pole.copy()
         _ = error_if_not_point_(M=M)
         M = np.asarray(M)
         if np.allclose(pole, M):
@@ -1537,7 +1537,7 @@ class Inversion:
         A = line.A
         B = line.B
         if collinear_(A, B, c0):
-            return line
+            return Line(A, B, line.extendA, line.extendB)
         Ap = self.invert(A)
         Bp = self.invert(B)
         return Triangle(c0, Ap, Bp).circumcircle()
@@ -2708,7 +2708,7 @@ class Reflection:
         if is_inf_(P):
             return inf
         _ = error_if_not_point_(P=P)
-        P = np.asarray(P, dtype=float)
+        P = np.array(P, dtype=float)
         line = self.line
         if line.includes(P):
             return P
@@ -2803,7 +2803,7 @@ class Projection:
         
         """
         _ = error_if_not_point_(M=M)
-        M = np.asarray(M)
+        M = np.array(M)
         D = self.D
         if D.includes(M):
             return M
-- 
2.43.0


From 4e453e3280a1ea2e4c0c5520a4df00b13cecaa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:59 +0000
Subject: [PATCH 11/19] fix: Ellipse.point_from_angle converts the caller's
 array of angles in place

---
 planegeometry/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index e969ec0..2c97e53 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1047,7 +1047,7 @@ class Ellipse:
         if not is_number_(theta):
             if not is_vector_(theta):
                 raise ValueError("`theta` must be a number or a vector of numbers.")
-            theta = np.asarray(theta, dtype=float)
+            theta = np.array(theta, dtype=float)
             if not is_real_vector_(theta):
                 raise ValueError("`theta` cannot be converted to a vector of real numbers.")
         else:
-- 
2.43.0


From 455543a69d973ade39f55952ebbd1c24bbd0e268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:59 +0000
Subject: [PATCH 12/19] fix: Inversion.invert_gcircle fails with TypeError

---
 planegeometry/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 2c97e53..0709e05 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1549,9 +1549,9 @@ class Inversion:
         :returns: A `Circle` object or a `Line` object.
         
         """
-        if isinstance(gcircle, "Circle"):
+        if isinstance(gcircle, Circle):
             return self.invert_circle(gcircle)
-        if isinstance(gcircle, "Line"):
+        if isinstance(gcircle, Line):
             return self.invert_line(gcircle)
         raise ValueError("`gcircle` must be a `Line` object or a `Circle` object.")
     
-- 
2.43.0


From 9ba7195029c5040a1d5f868251bf3551de1293f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:59 +0000
Subject: [PATCH 13/19] fix: Mobius.fixed_points takes a real square root of a
 complex number

---
 planegeometry/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index 0709e05..a904383 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2461,8 +2461,8 @@ class Mobius:
         if Delta == 0:
             return from_complex_((a-d)/2/c)
         return [
-            from_complex_((a-d + sqrt(Delta))/2/c),
-            from_complex_((a-d - sqrt(Delta))/2/c)            
+            from_complex_((a-d + Delta**0.5)/2/c),
+            from_complex_((a-d - Delta**0.5)/2/c)            
         ]
 
     
-- 
2.43.0


From f3b53b57614f5156d28489389c3d3e05c421e91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:16 +0000
Subject: [PATCH 14/19] fix: Mobius.from_mapping_three_points does not
 recognize infinite points

---
 planegeometry/internal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planegeometry/internal.py b/planegeometry/internal.py
index 8f68361..9675c92 100644
--- a/planegeometry/internal.py
+++ b/planegeometry/internal.py
@@ -7,7 +7,7 @@ def approx_equal_(x, y):
     return isclose(x, y) or isclose(x+1, y+1)
 
 def is_inf_(x):
-    return isinstance(x, float) and isinf(x)
+    return isinstance(x, (float, complex)) and (isinf(x.real) or isinf(x.imag))
 
 def are_equal_(x, y):
     return (is_inf_(x) and is_inf_(y)) or x==y
-- 
2.43.0


From 286379667ab3b6172c73b8be2407f29e817ddcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:12 +0000
Subject: [PATCH 15/19] fix: the string form of a reflection or a projection
 does not show its lines

---
 planegeometry/geometry.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index a904383..d044836 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2664,7 +2664,7 @@ class Reflection:
         self.line = Line(line.A, line.B, True, True)
         
     def __str__(self):
-        return str(self.__dict__)
+        return str({"line": self.line.__dict__})
 
     def show(self):
         print("Reflection with respect to the line passing through A and B.\n")
@@ -2784,7 +2784,9 @@ class Projection:
         self.orthogonal = Delta is None
 
     def __str__(self):
-        return str(self.__dict__)
+        return str({
+            "D": self.D.__dict__, "Delta": self.Delta.__dict__, "orthogonal": self.orthogonal
+        })
 
     def show(self):
         print("Projection onto the line `D` passing through `A` and `B` parallel to the line `Delta` passing through `P` and `Q`.\n")
-- 
2.43.0


From 13c09f40f78fa25c862dcaec390b97ce8630ad2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:44 +0000
Subject: [PATCH 16/19] fix: LownerJohnEllipse loses points when there are
 nearly equal ones

---
 planegeometry/internal.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/planegeometry/internal.py b/planegeometry/internal.py
index 9675c92..2f95ee1 100644
--- a/planegeometry/internal.py
+++ b/planegeometry/internal.py
@@ -267,15 +267,25 @@ def convex_hull_(points):
     points = np.unique(points, axis=0)
     if len(points) == 0:
         return points
-    tol = 1e-7 * np.max(np.ptp(points, axis=0))
     def half_hull(points):
         hull = []
         for P in points:
-            while len(hull) >= 2 and det2x2_(
-                hull[-1] - hull[-2], P - hull[-2]
-            ) <= tol * np.linalg.norm(P - hull[-2]):
+            while len(hull) >= 2 and det2x2_(hull[-1] - hull[-2], P - hull[-2]) <= 0:
                 hull.pop()
             hull.append(P)
         return hull[:-1]
-    return np.array(half_hull(points) + half_hull(points[::-1])).reshape((-1, 2))
+    hull = half_hull(points) + half_hull(points[::-1])
+    # remove the vertices which are almost on the segment between their neighbours
+    tol = 1e-7 * np.max(np.ptp(points, axis=0))
+    i = 0
+    while len(hull) > 2 and i < len(hull):
+        A, P, B = hull[i-1], hull[i], hull[(i+1) % len(hull)]
+        AB = B - A
+        s = dot_(P - A, AB) / dot_(AB)
+        if distance_(P, A + min(max(s, 0), 1) * AB) <= tol:
+            del hull[i]
+            i = max(i-1, 0)
+        else:
+            i += 1
+    return np.array(hull).reshape((-1, 2))
 
-- 
2.43.0


From e8bb9b05c045906bed6891f735e6e01c1b377ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:55 +0000
Subject: [PATCH 17/19] fix: displaying a triangle with coincident vertices
 raises ZeroDivisionError

---
 planegeometry/geometry.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index d044836..e8aa601 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1769,7 +1769,10 @@ class Triangle:
         re = z.real
         im = z.imag
         re2 = re * re
-        return re2 / (re2 + im*im)
+        d = re2 + im*im
+        if d == 0:
+            return 1.0
+        return re2 / d
 
     @property
     def a(self):
-- 
2.43.0


From 399b69a0b5d9599d231362e847305eaa9f23d73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:57 +0000
Subject: [PATCH 18/19] fix: Mobius.transform_circle never ended for small
 circles through the pole

---
 planegeometry/geometry.py | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index e8aa601..d261fe2 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -2494,19 +2494,11 @@ class Mobius:
             return Circle(w0, abs(complex(*v)))
         M = from_complex_(-d/c)
         if c != 0 and circ.includes(M):
-            alpha = 0.0
-            while True:
-                P = circ.point_from_angle(alpha, degrees=False)
-                if not np.allclose(P, M):
-                    break
-                alpha += 0.1
-            while True:
-                Q = circ.point_from_angle(alpha+3, degrees=False)
-                if not np.allclose(Q, M):
-                    break
-                alpha += 0.1
-            A = self.transform(P)
-            B = self.transform(Q)
+            # two points of the circle away from the pole
+            v = M - circ.center
+            alpha = atan2(v[1], v[0]) + 2*pi/3
+            A = self.transform(circ.point_from_angle(alpha, degrees=False))
+            B = self.transform(circ.point_from_angle(alpha + 2*pi/3, degrees=False))
         else:
             A = self.transform(circ.point_from_angle(0))
             B = self.transform(circ.point_from_angle(180, degrees=True))
-- 
2.43.0


From 8a815e492543f53da27596ea55ceaccfcc01fea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:37 +0000
Subject: [PATCH 19/19] fix: the equation of an ellipse no longer loses the
 squared cosine to cancellation

1 - sin(alpha)**2 has an absolute error, which the squared large radius
multiplies: for a thin, nearly vertical ellipse all points of the ellipse
were reported outside by contains(), and the enclosing-ellipse search on
points of such an ellipse restarted at every one of them (of the order of
n**5 nested searches).
---
 planegeometry/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planegeometry/geometry.py b/planegeometry/geometry.py
index d261fe2..598e25d 100644
--- a/planegeometry/geometry.py
+++ b/planegeometry/geometry.py
@@ -1109,7 +1109,7 @@ class Ellipse:
         sine = sin(alpha)
         cosine = cos(alpha)
         sine2 = sine*sine
-        cosine2 = 1 - sine2
+        cosine2 = cosine*cosine
         A = a2*sine2 + b2*cosine2
         B = 2*(b2-a2)*sine*cosine
         C = a2*cosine2 + b2*sine2
-- 
2.43.0

