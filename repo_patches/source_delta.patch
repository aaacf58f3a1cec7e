From d1010ff35b890edabc85873a9757ebe622d5e31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:39 +0000
Subject: [PATCH 01/58] fix: RigidMotion.itwist maps the twist with the
 adjoint, not its inverse

---
 arboris/rigidmotion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/rigidmotion.py b/arboris/rigidmotion.py
index 48926cc..c76d905 100644
--- a/arboris/rigidmotion.py
+++ b/arboris/rigidmotion.py
@@ -46,7 +46,7 @@ class RigidMotion(object):
 
     @property
     def itwist(self):
-        return -dot(self.iadjoint, self.twist)
+        return -dot(self.adjoint, self.twist)
 
     @property
     def adjoint(self):
-- 
2.43.0


From b9c241a02a8ea0a967765857ba2d0144439cf703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:39 +0000
Subject: [PATCH 02/58] fix: joints accept an integer initial position
 (integrate failed to cast)

---
 arboris/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arboris/core.py b/arboris/core.py
index 3417700..c6940b1 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -279,11 +279,11 @@ class LinearConfigurationSpaceJoint(Joint):
         if gpos is None:
             self.gpos = zeros(self.ndof)
         else:
-            self.gpos = array(gpos).reshape((self.ndof))
+            self.gpos = array(gpos, dtype=float).reshape((self.ndof))
         if gvel is None:
             self.gvel = zeros(self.ndof)
         else:
-            self.gvel = array(gvel).reshape((self.ndof))
+            self.gvel = array(gvel, dtype=float).reshape((self.ndof))
 
     def integrate(self, gvel, dt):
         self.gvel = gvel
-- 
2.43.0


From 86f82147d0a09aab10ed968e50df2ef6b1c5f958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:46 +0000
Subject: [PATCH 03/58] fix: isadjointmatrix compares the determinant with a
 tolerance

---
 arboris/adjointmatrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/adjointmatrix.py b/arboris/adjointmatrix.py
index ccddcb0..989f5c3 100644
--- a/arboris/adjointmatrix.py
+++ b/arboris/adjointmatrix.py
@@ -24,7 +24,7 @@ import numpy as np
 def isadjointmatrix(Ad):
     """ Return true if *Ad* is an adjoint matrix. """
     return (Ad.shape == (6, 6)) and (
-        np.linalg.det(Ad[0:3, 0:3])==1) and (
+        abs(np.linalg.det(Ad[0:3, 0:3])-1.) < 1e-9) and (
         Ad[0:3, 0:3]==Ad[3:6, 3:6]).all() and (
         Ad[0:3, 3:6]==np.zeros((3, 3))).all()
 
-- 
2.43.0


From d45912378dbc7383fd96592f8c27d8bb87256dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:05 +0000
Subject: [PATCH 04/58] fix: frames keep their own copy of the pose they are
 given

---
 arboris/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/core.py b/arboris/core.py
index c6940b1..3674a98 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -1113,7 +1113,7 @@ class _SubFrame(NamedObject, Frame):
             bpose = eye(4)
 
         assert Hg.ishomogeneousmatrix(bpose)
-        self._bpose = bpose
+        self._bpose = array(bpose)
         if not(isinstance(body, Body)):
             raise ValueError(
             "The ``body`` argument must be an instance of the ``Boby`` class")
-- 
2.43.0


From 9d86e1365c1421177598183851a0e50c23de862b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:48 +0000
Subject: [PATCH 05/58] fix: principalframe returns a rotation when principal
 moments are equal

---
 arboris/massmatrix.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arboris/massmatrix.py b/arboris/massmatrix.py
index 7d3ef47..34fbbac 100644
--- a/arboris/massmatrix.py
+++ b/arboris/massmatrix.py
@@ -6,7 +6,7 @@ __author__ = ("Sébastien BARTHÉLEMY <barthelemy@crans.org>")
 
 import arboris.homogeneousmatrix as Hg
 from   numpy        import diag, eye, dot, array, allclose
-from   numpy.linalg import eig, eigvals, det
+from   numpy.linalg import eig, eigvals, det, qr
 
 def ismassmatrix(M, semi=False):
     """ Check whether M is a valid mass matrix.
@@ -99,6 +99,7 @@ def principalframe(M):
     H[0:3, 3] = [rx[2, 1], rx[0, 2], rx[1, 0]]
     RSR = M[0:3, 0:3] + m*dot(rx, rx)
     [S, R] = eig(RSR)
+    R = qr(R)[0] # eig's vectors may be skewed if principal moments are equal
     if det(R)<0.:
         iI = array([[0, 0, 1], [0, 1, 0], [1, 0, 0]])
         R = dot(R, iI)
-- 
2.43.0


From f5410c3fe713abfbbd1215c7e8962885219eb42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:57 +0000
Subject: [PATCH 06/58] fix: ProportionalDerivativeController handles joints of
 different sizes

---
 arboris/controllers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arboris/controllers.py b/arboris/controllers.py
index 11bcbcd..d794418 100644
--- a/arboris/controllers.py
+++ b/arboris/controllers.py
@@ -175,8 +175,8 @@ class ProportionalDerivativeController(Controller):
         gpos = []
         gvel = []
         for j in self.joints:
-            gpos.append(j.gpos)
-            gvel.append(j.gvel)
+            gpos.extend(j.gpos)
+            gvel.extend(j.gvel)
         gpos = array(gpos).reshape(self._cndof)
         gvel = array(gvel).reshape(self._cndof)
         gforce[self._dof_map] = \
-- 
2.43.0


From 1efda74b61a821f18d1c35110ac43027df98a7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:01 +0000
Subject: [PATCH 07/58] fix: JointLimits solves each degree of freedom against
 its own limits

---
 arboris/constraints.py | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/arboris/constraints.py b/arboris/constraints.py
index eacbe42..d3a3507 100644
--- a/arboris/constraints.py
+++ b/arboris/constraints.py
@@ -72,24 +72,26 @@ class JointLimits(Constraint):
                (self._max-self._pos0<self._proximity).any()
 
     def solve(self, vel, admittance, dt):
-        pred = self._pos0 + dt*(vel - dot(admittance, self._force))
-        prev_force = self._force.copy()
         # pos = self._pos0 + dt*(vel + admittance*dforce)
-        if (pred <= self._min).any():
-            # the min limit is violated, we want pos == min
-            self._force = dot(pinv(admittance), (self._min - pred)/dt)
-            self._force = self._force.clip(min=0)
-            dforce = self._force - prev_force
-        elif (self._max <= pred).any():
-            #the max limit is violated, we want pos == max
-            self._force = dot(pinv(admittance), (self._max - pred)/dt)
-            self._force = self._force.clip(max=0)
-            dforce = self._force - prev_force
-        else:
-            # the joint is within its limits, we ensure the
-            # generalized force is zero
-            dforce = -self._force
-            self._force[:] = 0.
+        dforce = zeros((self._joint.ndof,))
+        # the limits are independent from each other: each degree of freedom
+        # is corrected alone, given the correction of the previous ones
+        for i in range(self._joint.ndof):
+            prev_force = self._force[i]
+            pred = self._pos0[i] + dt*(vel[i] + dot(admittance[i, :], dforce)
+                                       - admittance[i, i]*prev_force)
+            if pred <= self._min[i]:
+                # the min limit is violated, we want pos == min
+                force = (self._min[i] - pred)/(dt*admittance[i, i])
+            elif self._max[i] <= pred:
+                # the max limit is violated, we want pos == max
+                force = (self._max[i] - pred)/(dt*admittance[i, i])
+            else:
+                # this degree of freedom is within its limits, we ensure the
+                # generalized force is zero
+                force = 0.
+            dforce[i] = force - prev_force
+            self._force[i] = force
         return dforce
 
 class BallAndSocketConstraint(Constraint):
-- 
2.43.0


From cdafcacb54e90860a0488a447ba089265f32e597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:37 +0000
Subject: [PATCH 08/58] fix: SoftFingerContact sliding force lies on the
 friction cone when Y couples the axes

---
 arboris/constraints.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/arboris/constraints.py b/arboris/constraints.py
index d3a3507..49b931b 100644
--- a/arboris/constraints.py
+++ b/arboris/constraints.py
@@ -6,7 +6,8 @@
 
 __author__ = ("Sébastien BARTHÉLEMY <barthelemy@crans.org>")
 
-from numpy        import array, zeros, eye, dot, diag, logical_and, arange
+from numpy        import (array, zeros, eye, dot, outer, diag, logical_and,
+                          arange)
 from numpy.linalg import solve, eigvals, pinv
 import arboris.homogeneousmatrix as Hg
 from   arboris.core       import MovingSubFrame, Constraint, Shape, World
@@ -755,7 +756,7 @@ class SoftFingerContact(PointContact):
                 0 & 0 & 0 & 0 & 0 & e_y^2
             \end{bmatrix}
             \begin{bmatrix}
-                Y_t - Y_c\;Y_c\tp/y_n + 2 \frac{\beta b\tp}{a}
+                Y_t - Y_c\;Y_c\tp/y_n - 2 \frac{\beta b\tp}{a}
                     & -\frac{\beta \beta\tp}{a^2} \\
                 b b\tp -
                 \begin{bmatrix}
@@ -823,11 +824,11 @@ class SoftFingerContact(PointContact):
                 b = self._mu/y_n * Y_c
                 B = zeros((6, 6))
                 E = diag(self._eps**2)
-                Y_that = Y_t - dot(Y_c, Y_c.T)/y_n
+                Y_that = Y_t - outer(Y_c, Y_c)/y_n
                 B[3:6, 3:6] = dot(E, Y_that)
-                B[0:3, 0:3] = dot(E, Y_that + 2/a*dot(beta, b.T))
-                B[0:3, 3:6] = -dot(E, dot(beta, beta.T)/(a**2))
-                B[3:6, 0:3] = dot(E, dot(b, b.T)) - eye(3)
+                B[0:3, 0:3] = dot(E, Y_that - 2/a*outer(beta, b))
+                B[0:3, 3:6] = -dot(E, outer(beta, beta)/(a**2))
+                B[3:6, 0:3] = dot(E, outer(b, b)) - eye(3)
 
                 # s is the real part of the eigenvalue with the smallest
                 # imaginary par within those with a positive real part
-- 
2.43.0


From 77704a90d930f2a7d84790f351c118ddb43816a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:37 +0000
Subject: [PATCH 09/58] fix: SoftFingerContact never sticks with an adhesive
 normal force

---
 arboris/constraints.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arboris/constraints.py b/arboris/constraints.py
index 49b931b..c284501 100644
--- a/arboris/constraints.py
+++ b/arboris/constraints.py
@@ -806,7 +806,8 @@ class SoftFingerContact(PointContact):
             dforce = dot(-pinv(admittance), zero_tan_vel)
             force = self._force + dforce
 
-            if sum((force[0:3]/self._eps)**2) <= (force[3]*self._mu)**2:
+            if force[3] >= 0 and \
+               sum((force[0:3]/self._eps)**2) <= (force[3]*self._mu)**2:
                 # the elliptic dry friction law is respected.
                 self._force = force
                 return dforce
-- 
2.43.0


From 79843bd400b8a92f7547c51a592ab3c60c638d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:37 +0000
Subject: [PATCH 10/58] fix: SoftFingerContact applies no force when the shapes
 just touch

---
 arboris/constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/constraints.py b/arboris/constraints.py
index c284501..0681117 100644
--- a/arboris/constraints.py
+++ b/arboris/constraints.py
@@ -787,7 +787,7 @@ class SoftFingerContact(PointContact):
 
         """
         vel_no_force = vel - dot(admittance, self._force)
-        if self._sdist + dt*vel_no_force[3] > 0:
+        if self._sdist + dt*vel_no_force[3] >= 0:
             # if there is no contact, the contact force should be 0
             dforce = -self._force
             self._force[:] = 0.
-- 
2.43.0


From b17ba8c1c859d7510f7d5b03387c5d077d5da274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:13 +0000
Subject: [PATCH 11/58] fix: SoftFingerContact keeps only the real part of the
 selected eigenvalue

---
 arboris/constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/constraints.py b/arboris/constraints.py
index 0681117..7a3ee03 100644
--- a/arboris/constraints.py
+++ b/arboris/constraints.py
@@ -834,7 +834,7 @@ class SoftFingerContact(PointContact):
                 # s is the real part of the eigenvalue with the smallest
                 # imaginary par within those with a positive real part
                 S = eigvals(B)
-                S = S[logical_and(S.imag == 0, S.real <= 0)]
+                S = S[logical_and(S.imag == 0, S.real <= 0)].real
                 if len(S)==0:
                     s = -1e10 #TODO: log when len(S)==0
                 else:
-- 
2.43.0


From bda57db7983b5587db1851df1520228e20d3e74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:41 +0000
Subject: [PATCH 12/58] fix: SoftFingerContact supports a zero friction
 coefficient

---
 arboris/constraints.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/arboris/constraints.py b/arboris/constraints.py
index 7a3ee03..edabde3 100644
--- a/arboris/constraints.py
+++ b/arboris/constraints.py
@@ -811,6 +811,14 @@ class SoftFingerContact(PointContact):
                 # the elliptic dry friction law is respected.
                 self._force = force
                 return dforce
+            elif self._mu == 0:
+                # without friction, there is only a normal force
+                prev_force = self._force.copy()
+                normal_vel = vel[3] - dot(admittance[3, :], prev_force) + \
+                             self._sdist/dt
+                self._force[:] = 0.
+                self._force[3] = -normal_vel/admittance[3, 3]
+                return self._force - prev_force
             else:
                 # the elliptic dry friction law is not respected.
                 # We have to look for a solution with sliding
-- 
2.43.0


From 0ed8ad7fbe9b598f9e711dff939f9712b2b6d407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:31 +0000
Subject: [PATCH 13/58] fix: plane collisions return ground coordinates and the
 deepest sphere point

---
 arboris/collisions.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/arboris/collisions.py b/arboris/collisions.py
index eee6548..85103c2 100644
--- a/arboris/collisions.py
+++ b/arboris/collisions.py
@@ -7,7 +7,7 @@
 __author__ = ("Sébastien BARTHÉLEMY <barthelemy@crans.org>")
 
 from numpy.linalg import norm
-from numpy        import zeros, argmin, dot, sign, arange
+from numpy        import zeros, argmin, dot, arange
 import arboris.homogeneousmatrix as Hg
 from   arboris.core   import Shape
 from   arboris.shapes import Plane, Point, Box, Sphere
@@ -277,16 +277,17 @@ def _plane_sphere_collision(H_g0, coeffs0, p_g1, radius1):
 
     """
     assert Hg.ishomogeneousmatrix(H_g0)
-    assert norm(coeffs0[0:3]) == 1.
+    assert abs(norm(coeffs0[0:3]) - 1.) < 1e-9
     assert radius1 >= 0.
-    normal = coeffs0[0:3] # the plane normal
     p_01 = Hg.pdot(Hg.inv(H_g0), p_g1)
-    csdist = dot(normal, p_01) - coeffs0[3] # signed distance from the center
+    # signed distance from the center
+    csdist = dot(coeffs0[0:3], p_01) - coeffs0[3]
     sdist = csdist - radius1
+    normal = Hg.vdot(H_g0, coeffs0[0:3]) # the plane normal
     H_gc0 = Hg.zaligned(normal)
-    H_gc0[0:3, 3] = p_01 - csdist * normal
+    H_gc0[0:3, 3] = p_g1 - csdist * normal
     H_gc1 = H_gc0.copy()
-    H_gc1[0:3, 3] = p_01 - sign(sdist) * radius1 * normal
+    H_gc1[0:3, 3] = p_g1 - radius1 * normal
     return (sdist, H_gc0, H_gc1)
 
 def _box_sphere_collision(H_g0, half_extents0, p_g1, radius1):
-- 
2.43.0


From d10f3d2b0681a3b29658a4ab553e30bae451ddef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:31 +0000
Subject: [PATCH 14/58] fix: box collisions return a ground normal when the
 sphere center is inside

---
 arboris/collisions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arboris/collisions.py b/arboris/collisions.py
index 85103c2..4984857 100644
--- a/arboris/collisions.py
+++ b/arboris/collisions.py
@@ -374,8 +374,9 @@ def _box_sphere_collision(H_g0, half_extents0, p_g1, radius1):
             normal[i] = 1
         else:
             f_0[i-3] = -half_extents0[i-3]
-            normal[i-3] = -1 #TODO check this line is correct
+            normal[i-3] = -1
         f_g = Hg.pdot(H_g0, f_0)
+        normal = Hg.vdot(H_g0, normal)
         sdist = -norm(f_g - p_g1)-radius1
     else:
         # find the point x inside the box that is the nearest to
-- 
2.43.0


From 612d83d0b8db3c638be8b067f0f2ceb93c839964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:31 +0000
Subject: [PATCH 15/58] fix: choose_solver accepts a point and a box in any
 order

---
 arboris/collisions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arboris/collisions.py b/arboris/collisions.py
index 4984857..6cc9100 100644
--- a/arboris/collisions.py
+++ b/arboris/collisions.py
@@ -31,6 +31,7 @@ def choose_solver(shape0, shape1):
     * Sphere / Plane
     * Sphere / Box
     * Point / Plane
+    * Point / Box
 
     """
     assert isinstance(shape0, Shape)
@@ -58,6 +59,9 @@ def choose_solver(shape0, shape1):
         elif isinstance(shape1, Plane):
             shapes = (shape1, shape0)
             solver = plane_point_collision
+        elif isinstance(shape1, Box):
+            shapes = (shape1, shape0)
+            solver = box_point_collision
         else:
             raise NotImplementedError()
     elif isinstance(shape0, Plane):
-- 
2.43.0


From 03e49e25974d086090a2f47b825328c518cdc41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:24 +0000
Subject: [PATCH 16/58] fix: World.add_link refuses to link the ground and
 leaves a refused joint free

---
 arboris/core.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/arboris/core.py b/arboris/core.py
index 3674a98..1734327 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -526,13 +526,12 @@ class World(NamedObject):
         assert joint.frame0 is None
         assert joint.frame1 is None
         assert len(args) % 3 == 0
-        joint.set_frames(frame0, frame1)
-        if frame1.body.parentjoint is None:
-            frame1.body.parentjoint = joint
-        else:
+        if frame1.body.parentjoint is not None or frame1.body is self.ground:
             raise ValueError("frame1's body already has a parent joint, " + \
             "which means you're probably trying to create a kinematic loop." + \
             "Try using a constraint instead.")
+        joint.set_frames(frame0, frame1)
+        frame1.body.parentjoint = joint
         frame0.body.childrenjoints.append(joint)
         self.register(frame0)
         self.register(frame1)
-- 
2.43.0


From 2df906d2d0cc2e624bff56f9fffb1b92c36e5be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:19 +0000
Subject: [PATCH 17/58] fix: NamedObjectsList.as_dict raises DuplicateNameError
 on duplicate names

---
 arboris/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arboris/core.py b/arboris/core.py
index 1734327..ba3b554 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -125,7 +125,8 @@ class NamedObjectsList(list):
                 if obj.name not in result:
                     result[obj.name] = obj
                 else:
-                    raise DuplicateNameError()
+                    raise DuplicateNameError(
+                        "Several objects are named " + repr(obj.name))
         return result
 
 
-- 
2.43.0


From aa9681c0a6a704f8065dc45ab8eea299ae60a038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:59 +0000
Subject: [PATCH 18/58] fix: EnergyMonitor supports massless bodies

---
 arboris/observers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/arboris/observers.py b/arboris/observers.py
index 9ae2896..1e78970 100644
--- a/arboris/observers.py
+++ b/arboris/observers.py
@@ -60,8 +60,9 @@ class EnergyMonitor(Observer):
         self.potential_energy   = []
         self.mechanichal_energy = []
         self._com_pos           = {}
-        self._bodies = self._world.ground.iter_descendant_bodies
-        for body in self._bodies():
+        self._bodies = [b for b in world.ground.iter_descendant_bodies()
+                        if b.mass[3, 3] > 0]
+        for body in self._bodies:
             self._com_pos[body]  = principalframe(body.mass)[:, 3]
 
     def update(self, dt):
@@ -70,7 +71,7 @@ class EnergyMonitor(Observer):
                  dot(self._world.mass, self._world.gvel) )/2.
         self.kinetic_energy.append(Ec)
         Ep = 0.
-        for body in self._bodies():
+        for body in self._bodies:
             h = dot( dot(body.pose, self._com_pos[body])[0:3], self._world.up)
             Ep += body.mass[3, 3] * h
         Ep *= 9.81
-- 
2.43.0


From ae43fa5fc3d8b23a7225aea9b07698b1de9a9ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:59 +0000
Subject: [PATCH 19/58] fix: CoMObserver's jacobian derivative accounts for an
 offset centre of mass

---
 arboris/observers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arboris/observers.py b/arboris/observers.py
index 1e78970..61bb722 100644
--- a/arboris/observers.py
+++ b/arboris/observers.py
@@ -4,7 +4,7 @@
 __author__ = ("Sébastien BARTHÉLEMY <barthelemy@crans.org>",
               "Joseph SALINI <joseph.salini@gmail.com>")
 
-from numpy import dot, zeros, arange
+from numpy import dot, zeros, arange, cross
 
 from arboris.core import Observer, MovingSubFrame, name_all_elements
 from arboris.massmatrix import principalframe
@@ -510,7 +510,7 @@ class CoMObserver(Observer):
 
                 ##### For dJacobian
                 T_com2_body = self.bodies[i].twist.copy()
-                T_com2_body[3:6] = 0.
+                T_com2_body[3:6] = cross(self.H_body_com[i][0:3,3], T_com2_body[0:3])
                 dAd_com2_body = dAdjoint(Ad_com2_body, T_com2_body)
                 dJ_com2 = dot(Ad_com2_body, self.bodies[i].djacobian) + dot(dAd_com2_body, self.bodies[i].jacobian)
                 self._CoMdJacobian[:] += self.mass[i] * dJ_com2[3:6,:]
-- 
2.43.0


From 7a36ea03bbb95c054702567e0bc023dacba1dfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:25 +0000
Subject: [PATCH 20/58] fix: Hdf5Logger saves states and models, not only
 transforms

---
 arboris/observers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/observers.py b/arboris/observers.py
index 61bb722..3346018 100644
--- a/arboris/observers.py
+++ b/arboris/observers.py
@@ -394,7 +394,7 @@ class Hdf5Logger(SaveLogger):
         for elem in group_elements:
             g = self._h5_root.require_group(elem)
             for k, v in self._root[elem].items():
-                dset = g.require_dataset(k, (self._nb_steps, 4,4), "f8")
+                dset = g.require_dataset(k, v.shape, "f8")
                 dset[:] = v
 
         self._file.close()
-- 
2.43.0


From bb9b85a04e0f78a716bc891eccd8ab7973bdb4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:25 +0000
Subject: [PATCH 21/58] fix: SocketCom closes the connection with bytes, if
 there is one

---
 arboris/observers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arboris/observers.py b/arboris/observers.py
index 3346018..86dfbf0 100644
--- a/arboris/observers.py
+++ b/arboris/observers.py
@@ -443,7 +443,8 @@ class SocketCom(Observer):
 
     def finish(self):
         try:
-            self.conn.send("close_connection")
+            if self.conn is not None:
+                self.conn.send(b"close_connection")
             self.s.close()
         except socket.error:
             pass
-- 
2.43.0


From 67f17fe0bc09f2bd69569c690b9009507085989e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:44 +0000
Subject: [PATCH 22/58] fix: Drawer places moving subframes relative to the
 ground when flat

---
 arboris/visu/world_drawer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/visu/world_drawer.py b/arboris/visu/world_drawer.py
index d6871d9..c48a39a 100644
--- a/arboris/visu/world_drawer.py
+++ b/arboris/visu/world_drawer.py
@@ -370,7 +370,7 @@ class Drawer(object):
             color = self._color_generator.get_color(obj)
             if self._flat is True:
                 node = self._add_frame(self._ground_node,
-                    obj.bpose, False, obj.name, color)
+                    obj.pose, False, obj.name, color)
             else:
                 node = self._add_frame(self.frame_nodes[obj.body],
                     obj.bpose, False, obj.name, color)
-- 
2.43.0


From 6a948f54cefebbab554516e3074adcc9770f6d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:43 +0000
Subject: [PATCH 23/58] fix: the suprasternale of human36 lies midway between
 both sternoclavicular joints

---
 arboris/robots/human36.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/robots/human36.py b/arboris/robots/human36.py
index 64fc054..b43bf39 100644
--- a/arboris/robots/human36.py
+++ b/arboris/robots/human36.py
@@ -374,7 +374,7 @@ def add_human36(world, height=1.741, mass=73, anat_lengths=None, prefix=''):
     add_tag('Left great trochanter', "ThighL",  [0, 0, -0.0941*h+L['zhip']/2.])
     add_tag('Left iliac crest', "LPT", [0.0271*h, 0.0366*h, -0.0697*h])
     add_tag('Substernale (Xyphoid)', "UPT", [0.1219*h, 0, 0])
-    add_tag('Suprasternale', "UPT", [(L['xsternoclavL']+L['xsternoclavL'])/2., (L['ysternoclavL']+L['ysternoclavL'])/2., 0])
+    add_tag('Suprasternale', "UPT", [(L['xsternoclavR']+L['xsternoclavL'])/2., (L['ysternoclavR']+L['ysternoclavL'])/2., 0])
     add_tag('Right acromion', "ScapulaR", [-L['xshoulderR'], 0.0198*h+L['yshoulderR'], L['zshoulderR']])
     add_tag('Right humeral lateral epicondyle (radiale)', "ArmR", [0., -L['yhumerusR'], 0.0211*h])
     add_tag('Right stylion', "ForearmR", [0., -0.1533*h, 0.0331*h])
-- 
2.43.0


From 220a325ea1234c53ace0c9949d08eaeaaa577a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:44 +0000
Subject: [PATCH 24/58] fix: the upper trunk of human36 is sized from both
 sides, as its centre of mass

---
 arboris/robots/human36.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/robots/human36.py b/arboris/robots/human36.py
index b43bf39..05ca57a 100644
--- a/arboris/robots/human36.py
+++ b/arboris/robots/human36.py
@@ -266,7 +266,7 @@ def add_human36(world, height=1.741, mass=73, anat_lengths=None, prefix=''):
              [(L['xsternoclavR'] + L['xsternoclavL'])/4.,
               0.7001*(L['ysternoclavR']+L['ysternoclavL'])/2.,
               0.],
-             array([0.716, 0.659, 0.454])*L['ysternoclavR'])
+             array([0.716, 0.659, 0.454])*(L['ysternoclavR']+L['ysternoclavL'])/2.)
     # right shoulder
     add_body("ScapulaR", 0.,
              [0., 0., 0.],
-- 
2.43.0


From 71203980ce659e3da055001c5007cb9347045211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:53 +0000
Subject: [PATCH 25/58] fix: name_all_elements also checks the unicity of the
 names given by a generator

---
 arboris/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arboris/core.py b/arboris/core.py
index ba3b554..7033995 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -141,6 +141,7 @@ class DuplicateNameError(Exception):
 
 def name_all_elements(nlist, check_unicity=False):
     # give a unique name for all unnamed elements
+    nlist = list(nlist) # may be a generator, it is read twice
     for elem in nlist: 
         if elem.name is None:
             elem.name = str(id(elem))
-- 
2.43.0


From 5d919161304bee74b4f420deaba0429cff6a994d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:01 +0000
Subject: [PATCH 26/58] fix: URDF import and parser run under Python 3

---
 arboris/robots/urdf/__init__.py    | 12 ++++++------
 arboris/robots/urdf/urdf_parser.py | 17 ++++++++---------
 2 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/arboris/robots/urdf/__init__.py b/arboris/robots/urdf/__init__.py
index 7c79482..bc78e1c 100644
--- a/arboris/robots/urdf/__init__.py
+++ b/arboris/robots/urdf/__init__.py
@@ -107,11 +107,11 @@ def to_arboris( obj , default=None):
             joint["type"] = arboris.joints.FixedJoint
 
         elif obj.joint_type == urdf_parser.Joint.FLOATING:
-            print "WARNING: urdf containt free joint; this joint is deprecated."
+            print("WARNING: urdf containt free joint; this joint is deprecated.")
             joint["type"] = arboris.joints.FreeJoint
 
         else:
-            raise KeyError, "Joint type: '"+obj.joint_type+"' is unknown or not not implemented yet."
+            raise KeyError("Joint type: '"+obj.joint_type+"' is unknown or not not implemented yet.")
 
         return joint
 
@@ -151,7 +151,7 @@ def to_arboris( obj , default=None):
             return default
 
     else:
-        print "WARNING: Cannot load object", obj.__class__, obj
+        print("WARNING: Cannot load object", obj.__class__, obj)
 
 
 
@@ -189,7 +189,7 @@ class URDFConverter(object):
         list_of_bodies = {}
 
         if self.robot is None:
-            raise ValueError, "no URDF file has been loaded"
+            raise ValueError("no URDF file has been loaded")
 
         # save all bodies
         for body_name, urdf_body in self.robot.links.items():
@@ -204,7 +204,7 @@ class URDFConverter(object):
             # visual shapes can be loaded later with function 'get_visual_shapes'
             collision = to_arboris(urdf_body.collision, None)
             
-            if collision and (collision["shape"] is not "mesh"):
+            if collision and (collision["shape"] != "mesh"):
 
                 H_body_shape = collision["transform"]
                 shape_frame = arboris.core.SubFrame( list_of_bodies[name], H_body_shape )
@@ -260,7 +260,7 @@ class URDFConverter(object):
                         world.register(constraint)
 
                 else:
-                    print "WARNING: cannot save joint limit constraint for joint "+joint_name+" ("+urdf_joint.joint_type+")"
+                    print("WARNING: cannot save joint limit constraint for joint "+joint_name+" ("+urdf_joint.joint_type+")")
 
 
         # connect the root body of the robot with the ground frame
diff --git a/arboris/robots/urdf/urdf_parser.py b/arboris/robots/urdf/urdf_parser.py
index 2939c64..42a8859 100644
--- a/arboris/robots/urdf/urdf_parser.py
+++ b/arboris/robots/urdf/urdf_parser.py
@@ -6,7 +6,6 @@
 # It has been modified by joseph salini (just one comment) to skip rospy import.
 # Also replace rospy.logwarn by warnings
 
-import string
 #import rospy
 import warnings
 import xml.dom.minidom
@@ -14,9 +13,9 @@ from xml.dom.minidom import Document
 
 def reindent(s, numSpaces):
     """Reindent a string for tree structure pretty printing."""
-    s = string.split(s, '\n')
+    s = s.split('\n')
     s = [(numSpaces * ' ') + line for line in s]
-    s = string.join(s, '\n')
+    s = '\n'.join(s)
     return s
 
 def add(doc, base, element):
@@ -232,7 +231,7 @@ class Mesh(Geometry):
             s = None
         else:
             xyz = node.getAttribute('scale').split()
-            s = map(float, xyz)
+            s = list(map(float, xyz))
         return Mesh(fn, s)
 
     def to_xml(self, doc):
@@ -575,10 +574,10 @@ class Pose(object):
         pose = Pose()
         if node.hasAttribute("xyz"):
             xyz = node.getAttribute('xyz').split()
-            pose.position = map(float, xyz)
+            pose.position = list(map(float, xyz))
         if node.hasAttribute("rpy"):
             rpy = node.getAttribute('rpy').split()
-            pose.rotation = map(float, rpy)
+            pose.rotation = list(map(float, rpy))
         return pose
 
     def to_xml(self, doc):
@@ -780,21 +779,21 @@ class URDF(object):
         if len(self.links) == 0:
             s += "None\n"
         else:
-            for k, v in self.links.iteritems():
+            for k, v in self.links.items():
                 s += "- Link '{0}':\n{1}\n".format(k, reindent(str(v), 1))
         s += "\n"
         s += "Joints:\n"
         if len(self.joints) == 0:
             s += "None\n"
         else:
-            for k, v in self.joints.iteritems():
+            for k, v in self.joints.items():
                 s += "- Joint '{0}':\n{1}\n".format(k, reindent(str(v), 1))
         s += "\n"
         s += "Materials:\n"
         if len(self.materials) == 0:
             s += "None\n"
         else:
-            for k, v in self.materials.iteritems():
+            for k, v in self.materials.items():
                 s += "- Material '{0}':\n{1}\n".format(k, reindent(str(v), 1))
 
         return s
-- 
2.43.0


From eacdc19f6413c826c4d4a0c820c30c486cb081f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:42 +0000
Subject: [PATCH 27/58] fix: URDF origins may omit xyz or rpy, and joints their
 axis

---
 arboris/robots/urdf/__init__.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/arboris/robots/urdf/__init__.py b/arboris/robots/urdf/__init__.py
index bc78e1c..539fd22 100644
--- a/arboris/robots/urdf/__init__.py
+++ b/arboris/robots/urdf/__init__.py
@@ -70,8 +70,11 @@ def to_arboris( obj , default=None):
         return arboris.massmatrix.transport(M_com, inv(H_body_com) )
 
     elif isinstance(obj, urdf_parser.Pose):
-        H          = arboris.homogeneousmatrix.transl( *obj.position)
-        H[0:3,0:3] = roll_pitch_yaw_to_rotation_matrix(*obj.rotation)
+        H = np.eye(4)
+        if obj.position is not None:
+            H[0:3,3]   = obj.position
+        if obj.rotation is not None:
+            H[0:3,0:3] = roll_pitch_yaw_to_rotation_matrix(*obj.rotation)
         return H
 
     elif isinstance(obj, urdf_parser.Joint):
@@ -79,7 +82,8 @@ def to_arboris( obj , default=None):
         joint["parent"]         = obj.parent
         joint["child"]          = obj.child
         joint["H_parent_child"] = to_arboris(obj.origin, np.eye(4))
-        axis = [float(v) for v in obj.axis.split()] if len(obj.axis.split())==3 else obj.axis
+        axis = obj.axis if obj.axis is not None else "1 0 0" # default in URDF
+        axis = [float(v) for v in axis.split()] if len(axis.split())==3 else axis
 
         if   obj.joint_type == urdf_parser.Joint.REVOLUTE:
             if   (axis in ["x", "X"]) or ( np.allclose(axis, [1,0,0])):
-- 
2.43.0


From 1a83c4cda54fefe438ad4127bcb9f26b1e06798a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:42 +0000
Subject: [PATCH 28/58] fix: URDF links without inertial element are massless

---
 arboris/robots/urdf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/robots/urdf/__init__.py b/arboris/robots/urdf/__init__.py
index 539fd22..f032269 100644
--- a/arboris/robots/urdf/__init__.py
+++ b/arboris/robots/urdf/__init__.py
@@ -50,7 +50,7 @@ def to_arboris( obj , default=None):
     if   isinstance(obj, urdf_parser.Link):
         body = arboris.core.Body()
         body.name = obj.name
-        body.mass = to_arboris(obj.inertial)
+        body.mass = to_arboris(obj.inertial, np.zeros((6,6)))
         return body
 
     elif isinstance(obj, urdf_parser.Inertial):
-- 
2.43.0


From 7659b5fd45200a3967848af23feeda1ac90a60a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:42 +0000
Subject: [PATCH 29/58] fix: URDF joint axes are normalized

---
 arboris/robots/urdf/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arboris/robots/urdf/__init__.py b/arboris/robots/urdf/__init__.py
index f032269..41b9bcf 100644
--- a/arboris/robots/urdf/__init__.py
+++ b/arboris/robots/urdf/__init__.py
@@ -84,6 +84,8 @@ def to_arboris( obj , default=None):
         joint["H_parent_child"] = to_arboris(obj.origin, np.eye(4))
         axis = obj.axis if obj.axis is not None else "1 0 0" # default in URDF
         axis = [float(v) for v in axis.split()] if len(axis.split())==3 else axis
+        if not isinstance(axis, str):
+            axis = list(np.array(axis)/np.linalg.norm(axis))
 
         if   obj.joint_type == urdf_parser.Joint.REVOLUTE:
             if   (axis in ["x", "X"]) or ( np.allclose(axis, [1,0,0])):
-- 
2.43.0


From 11b0cb19d375d17d982e4ec5252fdc46faf2fd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:42 +0000
Subject: [PATCH 30/58] fix: the scale of URDF meshes is already a list of
 numbers

---
 arboris/robots/urdf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/robots/urdf/__init__.py b/arboris/robots/urdf/__init__.py
index 41b9bcf..3089371 100644
--- a/arboris/robots/urdf/__init__.py
+++ b/arboris/robots/urdf/__init__.py
@@ -134,7 +134,7 @@ def to_arboris( obj , default=None):
 
     elif isinstance(obj, urdf_parser.Mesh):
         mesh_path = obj.filename
-        scale = 1 if obj.scale is None else [float(v) for v in obj.scale.split()]
+        scale = 1 if obj.scale is None else obj.scale
         return {"shape": "mesh", "mesh_from_urdf": mesh_path,  "scale": scale}
 
     elif isinstance(obj, urdf_parser.Box):
-- 
2.43.0


From fd961275b0ffdc0cadf871d5581211e37c435c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:42 +0000
Subject: [PATCH 31/58] fix: URDF joints find their links when a prefix or a
 suffix is given

---
 arboris/robots/urdf/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/arboris/robots/urdf/__init__.py b/arboris/robots/urdf/__init__.py
index 3089371..475a6e6 100644
--- a/arboris/robots/urdf/__init__.py
+++ b/arboris/robots/urdf/__init__.py
@@ -237,8 +237,8 @@ class URDFConverter(object):
             joint = to_arboris(urdf_joint)
             joint["type"].name = name
 
-            parent = list_of_bodies[joint["parent"]]
-            child  = list_of_bodies[joint["child"] ]
+            parent = list_of_bodies[self.prefix + joint["parent"] + self.suffix]
+            child  = list_of_bodies[self.prefix + joint["child"]  + self.suffix]
 
             if "H_child_joint" in joint: # it means the the axis is not along x, y or z
                 H_parent_joint = np.dot( joint["H_parent_child"], joint["H_child_joint"])
@@ -270,7 +270,7 @@ class URDFConverter(object):
 
 
         # connect the root body of the robot with the ground frame
-        root_body = list_of_bodies[self.robot.get_root()]
+        root_body = list_of_bodies[self.prefix + self.robot.get_root() + self.suffix]
         ground = world.ground
 
         if self.H_init is not None:
-- 
2.43.0


From 5f75b43d32ea5167017f810de3678ce85f3d8366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:42 +0000
Subject: [PATCH 32/58] fix: URDF joints may have no limits

---
 arboris/robots/urdf/__init__.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/arboris/robots/urdf/__init__.py b/arboris/robots/urdf/__init__.py
index 475a6e6..7637159 100644
--- a/arboris/robots/urdf/__init__.py
+++ b/arboris/robots/urdf/__init__.py
@@ -256,7 +256,8 @@ class URDFConverter(object):
             # save all joints limits if it has been requested
             if self.save_joint_limits is True:
 
-                if urdf_joint.joint_type in [urdf_parser.Joint.REVOLUTE, urdf_parser.Joint.PRISMATIC]:
+                if urdf_joint.limits is not None and \
+                   urdf_joint.joint_type in [urdf_parser.Joint.REVOLUTE, urdf_parser.Joint.PRISMATIC]:
                     lower = urdf_joint.limits.lower
                     upper = urdf_joint.limits.upper
                     
@@ -335,6 +336,9 @@ class URDFConverter(object):
 
         for joint_name, urdf_joint in self.robot.joints.items():
 
+            if urdf_joint.limits is None:
+                continue
+
             name = self.prefix + joint_name + self.suffix
 
             lower = urdf_joint.limits.lower
@@ -351,6 +355,9 @@ class URDFConverter(object):
 
         for joint_name, urdf_joint in self.robot.joints.items():
 
+            if urdf_joint.limits is None:
+                continue
+
             name = self.prefix + joint_name + self.suffix
             effort_limits[name] = urdf_joint.limits.effort
 
@@ -363,6 +370,9 @@ class URDFConverter(object):
 
         for joint_name, urdf_joint in self.robot.joints.items():
 
+            if urdf_joint.limits is None:
+                continue
+
             name = self.prefix + joint_name + self.suffix
             velocity_limits[name] = urdf_joint.limits.velocity
 
-- 
2.43.0


From 5d3337e6b4b50ccdd6cf9abb3c7d75a6ec908f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:42 +0000
Subject: [PATCH 33/58] fix: URDF import does not name the joint classes

---
 arboris/robots/urdf/__init__.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/arboris/robots/urdf/__init__.py b/arboris/robots/urdf/__init__.py
index 7637159..c2bee56 100644
--- a/arboris/robots/urdf/__init__.py
+++ b/arboris/robots/urdf/__init__.py
@@ -235,7 +235,6 @@ class URDFConverter(object):
             name = self.prefix + joint_name + self.suffix
 
             joint = to_arboris(urdf_joint)
-            joint["type"].name = name
 
             parent = list_of_bodies[self.prefix + joint["parent"] + self.suffix]
             child  = list_of_bodies[self.prefix + joint["child"]  + self.suffix]
-- 
2.43.0


From aa30dd8c3a20e1fbed7d032a259f5e0dd8999076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:42 +0000
Subject: [PATCH 34/58] fix: URDF joints are saved with their mimic element

---
 arboris/robots/urdf/urdf_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arboris/robots/urdf/urdf_parser.py b/arboris/robots/urdf/urdf_parser.py
index 42a8859..700ed01 100644
--- a/arboris/robots/urdf/urdf_parser.py
+++ b/arboris/robots/urdf/urdf_parser.py
@@ -363,6 +363,7 @@ class Joint(object):
         add(doc, xml, self.dynamics)
         add(doc, xml, self.safety)
         add(doc, xml, self.calibration)
+        add(doc, xml, self.mimic)
         return xml
 
 
-- 
2.43.0


From ae6f209580b8c5c14eec9c2022445edc53a5e01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:08 +0000
Subject: [PATCH 35/58] fix: meshes are found next to a URDF file given by a
 relative path

---
 arboris/robots/urdf/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/arboris/robots/urdf/__init__.py b/arboris/robots/urdf/__init__.py
index c2bee56..5161a88 100644
--- a/arboris/robots/urdf/__init__.py
+++ b/arboris/robots/urdf/__init__.py
@@ -289,7 +289,7 @@ class URDFConverter(object):
         """
         """
         visual_mapping = []
-        urdf_path = os.path.dirname(self.urdf_file_name) + os.sep
+        urdf_path = os.path.dirname(self.urdf_file_name)
 
         for body_name, urdf_body in self.robot.links.items():
             name = self.prefix + body_name + self.suffix
@@ -300,7 +300,7 @@ class URDFConverter(object):
                 body_shape["frame"] = name
 
                 if ("mesh" not in body_shape):
-                    body_shape["mesh"] = urdf_path + body_shape["mesh_from_urdf"]
+                    body_shape["mesh"] = os.path.join(urdf_path, body_shape["mesh_from_urdf"])
 
                 visual_mapping.append( body_shape )
 
@@ -310,7 +310,7 @@ class URDFConverter(object):
         """
         """
         visual_mapping = []
-        urdf_path = os.path.dirname(self.urdf_file_name) + os.sep
+        urdf_path = os.path.dirname(self.urdf_file_name)
 
         for body_name, urdf_body in self.robot.links.items():
             name = self.prefix + body_name + self.suffix
@@ -321,7 +321,7 @@ class URDFConverter(object):
                 body_shape["frame"] = name
 
                 if ("mesh" not in body_shape):
-                    body_shape["mesh"] = urdf_path + body_shape["mesh_from_urdf"]
+                    body_shape["mesh"] = os.path.join(urdf_path, body_shape["mesh_from_urdf"])
 
                 visual_mapping.append( body_shape )
 
-- 
2.43.0


From c0ef2d5d3715c4a9bb5fe6cc005f69b4abe27894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:08 +0000
Subject: [PATCH 36/58] fix: the boxes of a URDF robot are not shown twice too
 large

---
 arboris/robots/urdf/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arboris/robots/urdf/__init__.py b/arboris/robots/urdf/__init__.py
index 5161a88..244065e 100644
--- a/arboris/robots/urdf/__init__.py
+++ b/arboris/robots/urdf/__init__.py
@@ -139,7 +139,7 @@ def to_arboris( obj , default=None):
 
     elif isinstance(obj, urdf_parser.Box):
         mesh_path = arboris_simple_shapes_path + "#simple_box_node"
-        scale     = obj.dims
+        scale     = [d/2. for d in obj.dims] # the mesh is a cube whose half length is 1
         return {"shape": "box", "mesh": mesh_path,  "scale": scale}
 
     elif isinstance(obj, urdf_parser.Sphere):
@@ -216,7 +216,7 @@ class URDFConverter(object):
                 shape_frame = arboris.core.SubFrame( list_of_bodies[name], H_body_shape )
 
                 if   collision["shape"] == "box":
-                    half_dims = np.array(collision["scale"])/2.
+                    half_dims = np.array(collision["scale"])
                     shape = arboris.shapes.Box( shape_frame, half_dims )
                 elif collision["shape"] == "sphere":
                     radius = collision["scale"]
-- 
2.43.0


From 4ca37ea87cd0f25530bf0d82d752dcfd5a798261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:08 +0000
Subject: [PATCH 37/58] fix: the collada writer runs under Python 3

---
 arboris/visu/dae_writer.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/arboris/visu/dae_writer.py b/arboris/visu/dae_writer.py
index 69ab969..27100ae 100644
--- a/arboris/visu/dae_writer.py
+++ b/arboris/visu/dae_writer.py
@@ -79,7 +79,7 @@ def write_collada_animation(collada_animation, collada_scene, sim_file, file_typ
             raise IOError("Cannot load file '"+sim_file+"'. It may not be a hdf5 file.")
     elif file_type in ["pickle", "pkl"]:
         try:
-            f = open(sim_file,'r')
+            f = open(sim_file,'rb')
             sim = pkl.load(f)
             timeline = sim["timeline"]
             transforms = sim["transforms"]
@@ -100,7 +100,7 @@ def write_collada_animation_from_transforms(collada_animation, collada_scene, ti
         src_elem = E.source(id=idName)
         
         idName += "-array"
-        count = len(src_data)/16 if param_type=="float4x4" else len(src_data)
+        count = len(src_data)//16 if param_type=="float4x4" else len(src_data)
         
         if src_type == "float":
             str_src_data = " ".join([str(round(val, precision)) for val in src_data])+" "
@@ -183,7 +183,7 @@ def add_shapes_to_dae(input_file, added_shapes, output_file=None):
                     dae.nodes.append(child_shape_node)
 
             else:
-                print "warning: cannot find shapes for node: '",node_id, "'"
+                print("warning: cannot find shapes for node: '",node_id, "'")
 
     else:
         for mesh_info in added_shapes:
@@ -204,11 +204,11 @@ def add_shapes_to_dae(input_file, added_shapes, output_file=None):
 
              #check whether parent exist
             if parent_node_id not in dae_nodes:
-                print "warning: cannot find node in input file: '", parent_node_id, "'"
+                print("warning: cannot find node in input file: '", parent_node_id, "'")
 
              #check whether shape exists
             elif (shape_id != "") and (shape_id not in shapes_dae_nodes):
-                print "warning: cannot find shape in collada file: '", shape_id, "'"
+                print("warning: cannot find shape in collada file: '", shape_id, "'")
 
             else:
                  #create node that will contain scale, transform and instance_node
@@ -237,7 +237,7 @@ def add_shapes_to_dae(input_file, added_shapes, output_file=None):
                 if len(mesh_data) >= 4:
                     #add a scale tranform Node
                     scale = mesh_data[3]
-                    if isinstance(scale, (int, float, long)):
+                    if isinstance(scale, (int, float)):
                         scale = [scale]*3
                     instance_node.transforms.append(collada.scene.ScaleTransform(*scale))
 
@@ -253,8 +253,8 @@ def add_shapes_to_dae(input_file, added_shapes, output_file=None):
 def _write_pycollada_in_file(dae, output_file):
     """
     """
-    with open(output_file, "w") as f:
-        f.write('<?xml version="1.0" encoding="UTF-8"?>')
+    with open(output_file, "wb") as f:
+        f.write(b'<?xml version="1.0" encoding="UTF-8"?>')
         dae.write(f)
 
 
@@ -348,7 +348,7 @@ class pydaenimColladaDriver(DrawerDriver):
                 new_name = name + "_{}".format(i)
                 if new_name not in self._names:
                     break
-            print "warning: name collision: "+name+": modify name to "+new_name
+            print("warning: name collision: "+name+": modify name to "+new_name)
         self._names.append(new_name)
         node = collada.scene.Node(new_name)
         return node
-- 
2.43.0


From 7fe6c7361b25fc02c566de31c338065dab4f1594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:08 +0000
Subject: [PATCH 38/58] fix: the options and the up axis given to the collada
 writer

---
 arboris/visu/dae_writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arboris/visu/dae_writer.py b/arboris/visu/dae_writer.py
index 27100ae..0e04816 100644
--- a/arboris/visu/dae_writer.py
+++ b/arboris/visu/dae_writer.py
@@ -319,7 +319,7 @@ class pydaenimColladaDriver(DrawerDriver):
     def __init__(self, filename, scale=1., options=None):
         """
         """
-        DrawerDriver.__init__(self, scale)
+        DrawerDriver.__init__(self, scale, options)
         self.filename   = filename
 
         self.dae        = collada.Collada()
@@ -360,7 +360,7 @@ class pydaenimColladaDriver(DrawerDriver):
         elif np_all(up == [0., 0., 1.]): up_elem = collada.asset.UP_AXIS.Z_UP
         else:
             up_elem = up_elem = collada.asset.UP_AXIS.Y_UP
-            warnings.warn('the up vector ('+up+') is not compatible with collada, set default.')
+            warnings.warn('the up vector ('+str(up)+') is not compatible with collada, set default.')
         self.dae.assetInfo.upaxis = up_elem
 
     def _add_new_material(self, color):
-- 
2.43.0


From 6c5fb8729cb4185c301d3882b1bcb4e1e17ff125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:08 +0000
Subject: [PATCH 39/58] fix: a shape added to a collada file may have a scale
 and no transform

---
 arboris/visu/dae_writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arboris/visu/dae_writer.py b/arboris/visu/dae_writer.py
index 0e04816..6da5033 100644
--- a/arboris/visu/dae_writer.py
+++ b/arboris/visu/dae_writer.py
@@ -190,8 +190,8 @@ def add_shapes_to_dae(input_file, added_shapes, output_file=None):
         
             if isinstance(mesh_info, dict):
                 mesh_data = [mesh_info["frame"], mesh_info["mesh"]]
-                if "transform" in mesh_info:
-                    mesh_data.append(mesh_info["transform"])
+                if "transform" in mesh_info or "scale" in mesh_info:
+                    mesh_data.append(mesh_info.get("transform", np.eye(4)))
                 if "scale" in mesh_info:
                     mesh_data.append(mesh_info["scale"])
             else:
-- 
2.43.0


From 0974b7acd094588d6b4bef0fba0eb52304f48f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:08 +0000
Subject: [PATCH 40/58] fix: daenim is sent bytes under Python 3

---
 arboris/visu/visu_collada.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/arboris/visu/visu_collada.py b/arboris/visu/visu_collada.py
index 7c1b5f8..66fd874 100644
--- a/arboris/visu/visu_collada.py
+++ b/arboris/visu/visu_collada.py
@@ -213,7 +213,7 @@ class DaenimCom(SocketCom):
                 H = b.pose
                 msg += self.packing_transform(b.name, H)
         else:
-            msg = ""
+            msg = b""
             for j in self.world.getjoints():
                 H = j.pose
                 msg += self.packing_transform(j.frames[1].name, H)
@@ -229,8 +229,8 @@ class DaenimCom(SocketCom):
 
 
     def packing_transform(self, _name, _H):
-        res = " ".join([_name] + map(str, _H[0:3, :].reshape(12)))+"\n"
-        return res
+        res = " ".join([_name] + list(map(str, _H[0:3, :].reshape(12))))+"\n"
+        return res.encode()
 
 
 
-- 
2.43.0


From 3e24d756e26dcc4da97884037cca8b0e43fffab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:08 +0000
Subject: [PATCH 41/58] fix: view reads the simulation in the given hdf5 group

---
 arboris/visu/visu_collada.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/visu/visu_collada.py b/arboris/visu/visu_collada.py
index 66fd874..7342c2a 100644
--- a/arboris/visu/visu_collada.py
+++ b/arboris/visu/visu_collada.py
@@ -280,7 +280,7 @@ def view(scene, hdf5_file=None, hdf5_group="/", daenim_path=None):
             subprocess.check_call((daenim_path, scene))
         else:
             anim_file = tempfile.mkstemp(suffix='anim.dae', text=True)[1]
-            write_collada_animation(anim_file, scene, hdf5_file, hdf5_group)
+            write_collada_animation(anim_file, scene, hdf5_file, hdf5_group=hdf5_group)
             subprocess.check_call((daenim_path, anim_file))
             os.remove(anim_file)
 
-- 
2.43.0


From a7d58a5b335f92539ef013aecfa99d18dfb92710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:23 +0000
Subject: [PATCH 42/58] fix: view displays collada files, in the given browser

---
 arboris/visu/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arboris/visu/__init__.py b/arboris/visu/__init__.py
index b09fab9..3f70665 100644
--- a/arboris/visu/__init__.py
+++ b/arboris/visu/__init__.py
@@ -80,10 +80,10 @@ def view(world, browser=None, **kwargs):
 
         write_collada_scene(world, collada_path)
 
-    elif isinstance(world, basestring):
+    elif isinstance(world, str):
         collada_path = world
 
-    pydaenim.create_pydaenimViewer(collada_path, **kwargs)
+    pydaenim.create_pydaenimViewer(collada_path, browser=browser, **kwargs)
 
 
 
-- 
2.43.0


From c70c0a0b6b608a2887040c80a8d2ceddb53d0419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:59 +0000
Subject: [PATCH 43/58] fix: every body is named before it is written in a
 collada scene

---
 arboris/visu/dae_writer.py   | 5 ++---
 arboris/visu/visu_collada.py | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/arboris/visu/dae_writer.py b/arboris/visu/dae_writer.py
index 6da5033..532935d 100644
--- a/arboris/visu/dae_writer.py
+++ b/arboris/visu/dae_writer.py
@@ -29,9 +29,8 @@ def write_collada_scene(world, dae_filename, scale=1, options=None, flat=False,
     """
     """
     assert isinstance(world, World)
-    if flat:
-        name_all_elements(world.getbodies(), True)
-    else:
+    name_all_elements(world.getbodies(), flat)
+    if not flat:
         nonflatlist = [j.frames[1] for j in world.getjoints()]
         name_all_elements(nonflatlist, True)
     name_all_elements(world.itermovingsubframes(), True)
diff --git a/arboris/visu/visu_collada.py b/arboris/visu/visu_collada.py
index 7342c2a..a3beb1c 100644
--- a/arboris/visu/visu_collada.py
+++ b/arboris/visu/visu_collada.py
@@ -37,9 +37,8 @@ def write_collada_scene(world, dae_filename, scale=1, options=None, flat=False,
 
     """
     assert isinstance(world, World)
-    if flat:
-        name_all_elements(world.getbodies(), True)
-    else:
+    name_all_elements(world.getbodies(), flat)
+    if not flat:
         nonflatlist = [j.frames[1] for j in world.getjoints()]
         name_all_elements(nonflatlist, True)
     name_all_elements(world.itermovingsubframes(), True)
-- 
2.43.0


From 6da49463d1a15c7d950d246e1989608dc95c4cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:59 +0000
Subject: [PATCH 44/58] fix: daenim's rigid bodies bear the name of their body

---
 arboris/visu/visu_collada.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/visu/visu_collada.py b/arboris/visu/visu_collada.py
index a3beb1c..b4b0eac 100644
--- a/arboris/visu/visu_collada.py
+++ b/arboris/visu/visu_collada.py
@@ -133,7 +133,7 @@ class DaenimColladaDriver(pydaenimColladaDriver):
 
     def create_inertia(self, inertia, color, name=""):
         """Generate a representation of inertia as an ellipsoid."""
-        pydaenimColladaDriver.create_inertia(self, inertia, color)
+        pydaenimColladaDriver.create_inertia(self, inertia, color, name)
         H_body_com  = principalframe(inertia)
         Mcom        = transport(inertia, H_body_com)
         mass        = Mcom[5,5]
-- 
2.43.0


From 14e4fdcec7151c233bbfde970911c9840a111238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:59 +0000
Subject: [PATCH 45/58] fix: collada lines start where they are asked to

---
 arboris/visu/visu_collada.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/visu/visu_collada.py b/arboris/visu/visu_collada.py
index b4b0eac..89b407b 100644
--- a/arboris/visu/visu_collada.py
+++ b/arboris/visu/visu_collada.py
@@ -124,8 +124,8 @@ class DaenimColladaDriver(pydaenimColladaDriver):
         H[0:3, 3] = start
         
         node = self._add_new_geometry(name, color, line_geom)
-        node.transforms.append(collada.scene.ScaleTransform(vector_norm, vector_norm, vector_norm))
         node.transforms.append(collada.scene.MatrixTransform(H.flatten()))
+        node.transforms.append(collada.scene.ScaleTransform(vector_norm, vector_norm, vector_norm))
 
         self._add_osg_description(node, "link")
 
-- 
2.43.0


From 75cb38f78d72f38cb732dbd2477530ea83c3945b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:59 +0000
Subject: [PATCH 46/58] fix: whole collada files added to a scene keep distinct
 ids

---
 arboris/visu/dae_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/visu/dae_writer.py b/arboris/visu/dae_writer.py
index 532935d..a70559c 100644
--- a/arboris/visu/dae_writer.py
+++ b/arboris/visu/dae_writer.py
@@ -216,7 +216,7 @@ def add_shapes_to_dae(input_file, added_shapes, output_file=None):
 
                  #it means that user selects all the scene children
                 if shape_id == "":
-                    child_shape_node = collada.scene.Node(shape_id, children = shapes_dae.scene.nodes)
+                    child_shape_node = collada.scene.Node(_get_good_id_uri(shape_path), children = shapes_dae.scene.nodes)
 
                 #in this case, the shape_path is on the form: 'shape_file.dae#shape_id'
                 else:
-- 
2.43.0


From 43bd6a5878150feca6f21ac484f3aa62038c2bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:09 +0000
Subject: [PATCH 47/58] fix: convert_py2mat: long vectors were cut into rows of
 different lengths

---
 matlab/convert_py2mat.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/matlab/convert_py2mat.py b/matlab/convert_py2mat.py
index e97acdf..773925b 100644
--- a/matlab/convert_py2mat.py
+++ b/matlab/convert_py2mat.py
@@ -9,12 +9,14 @@ __author__ = ("Joseph SALINI <joseph.salini@gmail.com>",
 
 from arboris.core import Body, SubFrame, Joint, World
 from arboris import joints, shapes
+from sys import maxsize
 from numpy import zeros, eye, array, arange, hstack
 from numpy.core import array2string
 
 def a2s(a):
     """Convert an array to a matlab-like string."""
-    return array2string(a, max_line_width=3*73, precision=14)
+    # matlab starts a new row at each end of line
+    return array2string(a, max_line_width=maxsize, precision=14)
 
 class GenerationError(RuntimeError):
     pass
@@ -305,9 +307,9 @@ robot.model.q = {1}';
 robot.model.T = {2}';
 
 end
-""".format(self._gpos[0],
-           hstack(self._gpos[1:]),
-           hstack(gvel))
+""".format(a2s(self._gpos[0]),
+           a2s(hstack(self._gpos[1:])),
+           a2s(hstack(gvel)))
         self.stream.write(text)
 
 
-- 
2.43.0


From cfc98c6d2d729addce293527656315a74b35a400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:09 +0000
Subject: [PATCH 48/58] fix: convert_py2mat: a robot with a free joint only

---
 matlab/convert_py2mat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matlab/convert_py2mat.py b/matlab/convert_py2mat.py
index 773925b..880f116 100644
--- a/matlab/convert_py2mat.py
+++ b/matlab/convert_py2mat.py
@@ -308,7 +308,7 @@ robot.model.T = {2}';
 
 end
 """.format(a2s(self._gpos[0]),
-           a2s(hstack(self._gpos[1:])),
+           a2s(hstack([[]] + self._gpos[1:])),
            a2s(hstack(gvel)))
         self.stream.write(text)
 
-- 
2.43.0


From a2b6563c4a2918496b122b8cd3f6613c03334d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:09 +0000
Subject: [PATCH 49/58] fix: convert_py2mat: shapes of unnamed bodies were put
 on other bodies

---
 matlab/convert_py2mat.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/matlab/convert_py2mat.py b/matlab/convert_py2mat.py
index 880f116..d201cae 100644
--- a/matlab/convert_py2mat.py
+++ b/matlab/convert_py2mat.py
@@ -330,7 +330,7 @@ tree.br({br}).root_jk={par};
         H00L1 = joint.frames[0].bpose
         H11L0 = joint.frames[1].bpose
         body = joint.frames[1].body
-        self._b_map[body.name] = (num_br, num_bd)
+        self._b_map[body] = (num_br, num_bd)
         if isinstance(joint, joints.RxJoint):
             jtype = "[0 0 0 1 0 0]"
         elif isinstance(joint, joints.RyJoint):
@@ -373,11 +373,11 @@ tree.br({br}).bd({bd}).M = ...
         _shapes = self.w.getshapes()
         for v in _shapes:
             body = v.frame.body
-            (br,bd)= self._b_map[body.name]
-            if body.name in num_in_bd:
-                num_in_bd[body.name] += 1
+            (br,bd)= self._b_map[body]
+            if body in num_in_bd:
+                num_in_bd[body] += 1
             else:
-                num_in_bd[body.name] = 1
+                num_in_bd[body] = 1
             if isinstance(v, shapes.Point): #TODO should be handled by Converter
                 stype='sphere'
                 dims='0.01'
@@ -398,7 +398,7 @@ tree.br({br}).bd({bd}).shape({num}).type = '{stype}';
 tree.br({br}).bd({bd}).shape({num}).dims = {dims};
 tree.br({br}).bd({bd}).shape({num}).H = {H};
 tree.br({br}).bd({bd}).shape({num}).gr_props = {visu};
-""".format(br=br, bd=bd, num=num_in_bd[body.name], stype=stype,
+""".format(br=br, bd=bd, num=num_in_bd[body], stype=stype,
            dims=dims, H=a2s(Hpose),
            visu="{}")
             self.stream.write(text)
-- 
2.43.0


From 0c678bc41c2935b9b403e6936259633796252d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:09 +0000
Subject: [PATCH 50/58] fix: convert_py2mat: a shape out of the robot raised a
 KeyError

---
 matlab/convert_py2mat.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/matlab/convert_py2mat.py b/matlab/convert_py2mat.py
index d201cae..890c267 100644
--- a/matlab/convert_py2mat.py
+++ b/matlab/convert_py2mat.py
@@ -370,7 +370,8 @@ tree.br({br}).bd({bd}).M = ...
     def _add_shapes(self):
         """Add the shapes for all the links."""
         num_in_bd = {}
-        _shapes = self.w.getshapes()
+        # the other shapes (on the ground for instance) are not part of the robot
+        _shapes = [s for s in self.w.getshapes() if s.frame.body in self._b_map]
         for v in _shapes:
             body = v.frame.body
             (br,bd)= self._b_map[body]
-- 
2.43.0


From 65546699b8a11870631a82cc152a2b2831ab5a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:09 +0000
Subject: [PATCH 51/58] fix: convert_py2mat: an unknown shape was written as
 the one before it

---
 matlab/convert_py2mat.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/matlab/convert_py2mat.py b/matlab/convert_py2mat.py
index 890c267..11c622c 100644
--- a/matlab/convert_py2mat.py
+++ b/matlab/convert_py2mat.py
@@ -393,6 +393,9 @@ tree.br({br}).bd({bd}).M = ...
             elif isinstance(v, shapes.Cylinder):
                 stype='cylinder'
                 dims='[{0} {1}]'.format(v.radius, v.length)
+            else:
+                raise GenerationError(
+                    'Cannot generate shapes of type "{0}".'.format(type(v)))
             Hpose=v.frame.bpose
             text="""
 tree.br({br}).bd({bd}).shape({num}).type = '{stype}';
-- 
2.43.0


From 9308c20f4522b4988bc877d68b27cca83f7e0ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:09 +0000
Subject: [PATCH 52/58] fix: convert_py2mat: a second robot was written with
 the state of the first

---
 matlab/convert_py2mat.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/matlab/convert_py2mat.py b/matlab/convert_py2mat.py
index 11c622c..45b4678 100644
--- a/matlab/convert_py2mat.py
+++ b/matlab/convert_py2mat.py
@@ -275,6 +275,9 @@ class  MatlabRobotGenerator(object):
         if not isinstance(root_joint, joints.FreeJoint):
             raise GenerationError("The root joint must be a FreeJoint.")
         self.stream = stream
+        self._b_map = {}
+        self._gpos = []
+        self._gvel = []
         try:
             self._add_tree(name)
             self._add_branch(1)
-- 
2.43.0


From e1564e8f42fce0da3cf68dc66cd945e51475220d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:09 +0000
Subject: [PATCH 53/58] fix: convert_py2mat: bodies between the joints weighed
 tons

---
 matlab/convert_py2mat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matlab/convert_py2mat.py b/matlab/convert_py2mat.py
index 45b4678..e93ab54 100644
--- a/matlab/convert_py2mat.py
+++ b/matlab/convert_py2mat.py
@@ -125,7 +125,7 @@ class MatlabConverter(object):
 
         def mass():
             from numpy import diag
-            return self.base_mass*diag([1.0, 1.0, 1.0, 0.1, 0.1, 0.1])
+            return self.small_mass*diag([0.1, 0.1, 0.1, 1.0, 1.0, 1.0])
 
         if isinstance(joint, joints.RzJoint) or \
             isinstance(joint, joints.RyJoint) or \
-- 
2.43.0


From 4e655f1d4e33c3946bf3435ecda7d6436296c7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:29 +0000
Subject: [PATCH 54/58] fix: convert_py2mat: evenly spaced timelines were
 refused

The last instant was compared with a range that could be one longer.
---
 matlab/convert_py2mat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matlab/convert_py2mat.py b/matlab/convert_py2mat.py
index e93ab54..e4df084 100644
--- a/matlab/convert_py2mat.py
+++ b/matlab/convert_py2mat.py
@@ -10,7 +10,7 @@ __author__ = ("Joseph SALINI <joseph.salini@gmail.com>",
 from arboris.core import Body, SubFrame, Joint, World
 from arboris import joints, shapes
 from sys import maxsize
-from numpy import zeros, eye, array, arange, hstack
+from numpy import zeros, eye, hstack, diff, allclose
 from numpy.core import array2string
 
 def a2s(a):
@@ -182,7 +182,7 @@ class MatlabSimulationGenerator(object):
         t_start = timeline[0]
         dt = timeline[1]-timeline[0]
         t_end = timeline[-1]+dt
-        if not (arange(t_start, t_end, dt) == array(timeline)).all():
+        if not allclose(diff(timeline), dt, rtol=1e-6, atol=0.):
             raise GenerationError('timeline elements should be equally spaced.')
         t_end -= 1.5*dt
         if len(world.ground.childrenjoints) != 1:
-- 
2.43.0


From 1c0e27acca6588f450a66f30db70fc78a899d8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:17 +0000
Subject: [PATCH 55/58] fix: SoftFingerContact: shapes which no normal force
 can move apart crashed

---
 arboris/constraints.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/arboris/constraints.py b/arboris/constraints.py
index edabde3..7e4c7ab 100644
--- a/arboris/constraints.py
+++ b/arboris/constraints.py
@@ -6,7 +6,7 @@
 
 __author__ = ("Sébastien BARTHÉLEMY <barthelemy@crans.org>")
 
-from numpy        import (array, zeros, eye, dot, outer, diag, logical_and,
+from numpy        import (array, zeros, eye, dot, outer, diag, trace, logical_and,
                           arange)
 from numpy.linalg import solve, eigvals, pinv
 import arboris.homogeneousmatrix as Hg
@@ -811,6 +811,11 @@ class SoftFingerContact(PointContact):
                 # the elliptic dry friction law is respected.
                 self._force = force
                 return dforce
+            elif admittance[3, 3] <= 1e-12*trace(admittance):
+                # no normal force can change the motion
+                dforce = -self._force
+                self._force[:] = 0.
+                return dforce
             elif self._mu == 0:
                 # without friction, there is only a normal force
                 prev_force = self._force.copy()
-- 
2.43.0


From 2b58639afa30aeaee997b2a4ab4d0179add3e8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:33 +0000
Subject: [PATCH 56/58] fix: SoftFingerContact: a sliding contact of a
 mechanism with a single mobility crashed

---
 arboris/constraints.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arboris/constraints.py b/arboris/constraints.py
index 7e4c7ab..b9bd085 100644
--- a/arboris/constraints.py
+++ b/arboris/constraints.py
@@ -852,6 +852,8 @@ class SoftFingerContact(PointContact):
                     s = -1e10 #TODO: log when len(S)==0
                 else:
                     s = max(min(S), -1e10) #TODO: log when |s|>=1e10
+                # A must not be singular, even if the admittance is
+                s = min(s, -1e-9*trace(Y_t))
                 prev_force = self._force.copy()
                 A = admittance.copy()
                 A[0:3, 0:3] -= s*diag(self._eps**-2)
-- 
2.43.0


From 622290865583d86975426f8c653757ecabdc0ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:36 +0000
Subject: [PATCH 57/58] fix: the distance of concentric spheres could not be
 computed

---
 arboris/collisions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/arboris/collisions.py b/arboris/collisions.py
index 6cc9100..23e6e9d 100644
--- a/arboris/collisions.py
+++ b/arboris/collisions.py
@@ -7,7 +7,7 @@
 __author__ = ("Sébastien BARTHÉLEMY <barthelemy@crans.org>")
 
 from numpy.linalg import norm
-from numpy        import zeros, argmin, dot, arange
+from numpy        import array, zeros, argmin, dot, arange
 import arboris.homogeneousmatrix as Hg
 from   arboris.core   import Shape
 from   arboris.shapes import Plane, Point, Box, Sphere
@@ -231,7 +231,11 @@ def _sphere_sphere_collision(p_g0, radius0, p_g1, radius1):
     """
     vec = p_g1 - p_g0
     sdist = norm(vec) - radius0 - radius1
-    normal = vec/norm(vec)
+    if norm(vec) > 0:
+        normal = vec/norm(vec)
+    else:
+        # the centers coincide: every direction is as good
+        normal = array((0., 0., 1.))
     H_gc0 = Hg.zaligned(normal)
     z = H_gc0[0:3, 2]
     H_gc0[0:3, 3] = p_g0 + radius0*z
-- 
2.43.0


From 64784bc606ad5b03da5068d608171ffb9ff7d3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:48 +0000
Subject: [PATCH 58/58] fix: convert_py2mat: the gravity was cut into two rows,
 or written with eight digits

---
 matlab/convert_py2mat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matlab/convert_py2mat.py b/matlab/convert_py2mat.py
index e4df084..7366daf 100644
--- a/matlab/convert_py2mat.py
+++ b/matlab/convert_py2mat.py
@@ -229,7 +229,7 @@ struct2h5(st, ['{sname}' '_mat.h5']);
 
 exit; % quit matlab!
 end
-""".format(t_start=t_start, t_end=t_end, dt=dt, rname=robot_name, sname=simu_name, gravity_acc=gravity_acc)
+""".format(t_start=t_start, t_end=t_end, dt=dt, rname=robot_name, sname=simu_name, gravity_acc=a2s(gravity_acc))
         stream.write(text)
         MatlabRobotGenerator(world).make_robot(
             root_joint = world.ground.childrenjoints[0],
-- 
2.43.0

