From 7fabb040f24d4c1d60803e009fb1e740e4485bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:08 +0000
Subject: [PATCH 01/16] fix: insert a knot at the right end of an unclamped
 knot vector

---
 igakit/igalib.f90 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/igakit/igalib.f90 b/igakit/igalib.f90
index fe2c7ed..170b4a2 100644
--- a/igakit/igalib.f90
+++ b/igakit/igalib.f90
@@ -1124,6 +1124,7 @@ subroutine InsertKnot(d,n,p,U,Pw,uu,r,V,Qw)
      V = U; Qw = Pw; return
   end if
   call FindSpanMult(n,p,uu,U,k,s)
+  if (uu >= U(n+1)) k = n + min(s,p) ! right end, possibly unclamped
   call InsKnt(d,n,p,U,Pw,uu,k,s,r,V,Qw)
 end subroutine InsertKnot
 
-- 
2.43.0


From d0b98f0140cbc40481c6a7b0f02802acb4123361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:56 +0000
Subject: [PATCH 02/16] fix: elevate the degree of an unclamped knot vector
 (clamp it first)

---
 igakit/nurbs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index a6fa3f8..1c1445e 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -1154,6 +1154,9 @@ class NURBS(object):
         Pw = np.rollaxis(array, axis, 0)
         shape = Pw.shape
         Pw = Pw.reshape((shape[0], -1))
+        if U[0] != U[p] or U[-1] != U[-p-1]:
+            # the algorithm requires clamped ends
+            U, Pw = _bsp.Clamp(p, U, Pw)
         V, Qw = DegreeElevate(p, U, Pw, t)
         Qw.shape = Qw.shape[:1] + shape[1:]
         array = np.rollaxis(Qw, 0, axis+1)
-- 
2.43.0


From 05ac20dc83ff5df88e57f97226e479e6d75f61bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:00 +0000
Subject: [PATCH 03/16] fix: scale the tolerance of knot removal by the weights
 and points, whatever the fields and axes

---
 igakit/nurbs.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index 1c1445e..c60a0ec 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -867,12 +867,9 @@ class NURBS(object):
         Pw = np.rollaxis(array, axis, 0)
         shape = Pw.shape
         Pw = Pw.reshape((shape[0], -1))
-        wmin = Pw[:,-1].min()
-        Pmax = []
-        for i in range(Pw.shape[0]):
-            Pmax.append(np.linalg.norm(Pw[i,:-1]))
-        Pmax = max(Pmax)
-        TOL = deviation*wmin/(1.+Pmax)
+        wmin = self.weights.min()
+        Pmax = np.sqrt((self.points**2).sum(axis=-1)).max()
+        TOL = deviation*wmin/(1.0+Pmax+deviation)/times
         t, V, Qw = RemoveKnot(p, U, Pw, value, TOL, times)
         if t > 0: V = V[:-t].copy()
         if t > 0: Qw = Qw[:-t,:].copy()
-- 
2.43.0


From db63ab1869c5e03c18a30ba45b1bbcab7762e2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:07 +0000
Subject: [PATCH 04/16] fix: extract the right boundary of an axis that is
 neither simple nor clamped there

---
 igakit/igalib.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/igakit/igalib.f90 b/igakit/igalib.f90
index 170b4a2..1ed26b9 100644
--- a/igakit/igalib.f90
+++ b/igakit/igalib.f90
@@ -196,8 +196,8 @@ subroutine CurvePntByCornerCut(d,n,p,U,Pw,x,Cw)
      end if
   elseif (x >= U(n+1)) then
      uu = U(n+1)
-     k = n+1
      s = FindMult(n,uu,p,U)
+     k = n+s
      if (s >= p) then
         Cw(:) = Pw(:,n)
         return
-- 
2.43.0


From d0fc687773b15b8fb94eadf0e2f0487592a83194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:17 +0000
Subject: [PATCH 05/16] fix: add the missing term of the rational fourth
 derivatives

---
 igakit/igalib.f90 | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/igakit/igalib.f90 b/igakit/igalib.f90
index 1ed26b9..592f45c 100644
--- a/igakit/igalib.f90
+++ b/igakit/igalib.f90
@@ -938,7 +938,8 @@ subroutine Rationalize(nen,dim,W,R0,R1,R2,R3,R4)
                    - R2(j,k,:)*W2(i,l) - R3(j,k,l,:)*W1(i) &
                    - R1(i,:)*W3(j,k,l) - R2(i,l,:)*W2(j,k) &
                    - R2(i,k,:)*W2(j,l) - R3(i,k,l,:)*W1(j) &
-                   - R2(i,j,:)*W2(k,l) - R3(i,j,l,:)*W1(k)
+                   - R2(i,j,:)*W2(k,l) - R3(i,j,l,:)*W1(k) &
+                   - R3(i,j,k,:)*W1(l)
   end do; end do; end do; end do
   R4 = R4 / W0
 end subroutine Rationalize
-- 
2.43.0


From 5cb88e49f30782536fa660ef53a9d288016f8723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:17 +0000
Subject: [PATCH 06/16] fix: refuse mapped derivatives of order > 1 with an
 exception (the kernel stops the process)

---
 igakit/nurbs.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index c60a0ec..6093a93 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -1621,6 +1621,8 @@ class NURBS(object):
             assert F.shape[:-1] == shape
             squeeze = False
         #
+        if mapped:
+            raise NotImplementedError("geometry mapping not supported")
         m  = int(bool(mapped))
         Cw = self.control
         Cw = np.ascontiguousarray(Cw)
@@ -1690,6 +1692,9 @@ class NURBS(object):
             assert F.shape[:-1] == shape
             squeeze = False
         #
+        assert order >= 1 and order <= 4
+        if mapped and order > 1:
+            raise NotImplementedError("geometry mapping not supported")
         m  = int(bool(mapped))
         Cw = self.control
         Cw = np.ascontiguousarray(Cw)
@@ -1703,7 +1708,6 @@ class NURBS(object):
         arglist.append(F)
         arglist.extend(uvw)
         #
-        assert order >= 1 and order <= 4
         fn = ['Gradient', 'Hessian', 'ThirdDer', 'FourthDer'][order-1]
         Derivative = getattr(_bsp, '%s%d' % (fn, self.dim))
         D = Derivative(*arglist)
-- 
2.43.0


From 7c6f0b7bf03c532c6c9ed4fe32feb858327c10f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:57 +0000
Subject: [PATCH 07/16] fix: revolve about an axis antiparallel to z

---
 igakit/cad.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/igakit/cad.py b/igakit/cad.py
index 423f0ba..c582463 100644
--- a/igakit/cad.py
+++ b/igakit/cad.py
@@ -459,6 +459,7 @@ def revolve(nrb, point, axis=2, angle=None):
     # Transform the NURBS object to a new reference frame
     # (O,X,Y,Z) centered at point and z-oriented with axis
     n = [v[1], -v[0], 0]    # n = cross(v, z)
+    if not np.any(n): n = [1, 0, 0] # v is parallel to z
     gamma = np.arccos(v[2]) # cos_gamma = dot(v, z)
     T = transform().translate(-point).rotate(gamma, n)
     nrb = nrb.clone().transform(T)
-- 
2.43.0


From c5c32da4278ea2f33fb482d4de19a90b1c745ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:49 +0000
Subject: [PATCH 08/16] fix: make an unclamped object compatible with a clamped
 one (clamp both)

---
 igakit/cad.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/igakit/cad.py b/igakit/cad.py
index c582463..a532129 100644
--- a/igakit/cad.py
+++ b/igakit/cad.py
@@ -334,6 +334,17 @@ def compat(*nurbs, **kargs):
                 t = elevate[i,j]
                 nrb.elevate(axis, t)
     #
+    def SameEnds(nurbs, axes):
+        # Ensure same end knots by clamping
+        for axis in axes:
+            p = nurbs[0].degree[axis]
+            ends = [np.concatenate([nrb.knots[axis][:p+1],
+                                    nrb.knots[axis][-p-1:]])
+                    for nrb in nurbs]
+            if any(np.any(e != ends[0]) for e in ends):
+                for nrb in nurbs:
+                    nrb.clamp(axis)
+    #
     def MergeKnots(nurbs, axes):
         m, n = len(nurbs), len(axes)
         insert = np.empty((m, n), dtype=object)
@@ -384,6 +395,7 @@ def compat(*nurbs, **kargs):
     #
     SameBounds(nurbs, axes)
     SameDegree(nurbs, axes)
+    SameEnds(nurbs, axes)
     MergeKnots(nurbs, axes)
     #
     return nurbs
-- 
2.43.0


From 645b51eb6ac13c278737c5e2ecafdd46835578e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:12 +0000
Subject: [PATCH 09/16] fix: Coons patch of curves whose corner weights are not
 one

---
 igakit/cad.py | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/igakit/cad.py b/igakit/cad.py
index a532129..e75f475 100644
--- a/igakit/cad.py
+++ b/igakit/cad.py
@@ -582,21 +582,14 @@ def coons(curves):
     (C00, C01) = compat(C00, C01)
     (C10, C11) = compat(C10, C11)
     #
-    p, U = C10.degree[0], C10.knots[0]
-    u0, u1 = U[p], U[-p-1]
-    P = np.zeros((2,2,3), dtype='d')
-    P[0,0] = C10(u0)
-    P[1,0] = C10(u1)
-    P[0,1] = C11(u0)
-    P[1,1] = C11(u1)
+    ends = lambda C: C.clone().clamp(0).control[[0,-1]]
+    P = np.zeros((2,2,4), dtype='d')
+    P[:,0] = ends(C10)
+    P[:,1] = ends(C11)
     #
-    q, V = C00.degree[0], C00.knots[0]
-    v0, v1 = V[q], V[-q-1]
-    Q = np.zeros((2,2,3), dtype='d')
-    Q[0,0] = C00(v0)
-    Q[0,1] = C00(v1)
-    Q[1,0] = C01(v0)
-    Q[1,1] = C01(v1)
+    Q = np.zeros((2,2,4), dtype='d')
+    Q[0,:] = ends(C00)
+    Q[1,:] = ends(C01)
     #
     assert np.allclose(P, Q, rtol=0, atol=1e-15)
     #
-- 
2.43.0


From d254979bc3295b416b2c3ef9f60599e9aafe480c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:56 +0000
Subject: [PATCH 10/16] fix: join places the second object right after the
 first one whatever its domain

---
 igakit/cad.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/igakit/cad.py b/igakit/cad.py
index e75f475..6fbd4d4 100644
--- a/igakit/cad.py
+++ b/igakit/cad.py
@@ -643,7 +643,7 @@ def join(nrb1, nrb2, axis):
     u = U1[-p1-1]
     a = U2[p2]
     b = U2[-p2-1]
-    nrb2.remap(axis, a+u, b+u)
+    nrb2.remap(axis, u, u+(b-a))
 
     p = max(p1, p2)
     nrb1.elevate(axis, p-p1)
-- 
2.43.0


From 228a5a0800dccd99005db160d26856041fd4a757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:03 +0000
Subject: [PATCH 11/16] fix: join objects whose weights differ by a factor
 along the common boundary

---
 igakit/cad.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/igakit/cad.py b/igakit/cad.py
index 6fbd4d4..bdee917 100644
--- a/igakit/cad.py
+++ b/igakit/cad.py
@@ -656,10 +656,15 @@ def join(nrb1, nrb2, axis):
     I1[axis] = slice(0,-1)
     I2[axis] = slice(1,None)
     Al = A1[tuple(I1)]
-    Ar = A2[tuple(I2)]
     I1[axis] = -1
-    I2[axis] = +0
-    Ac = (A1[tuple(I1)]+A2[tuple(I2)])/2.0
+    I3 = list(I2)
+    I3[axis] = +0
+    # Match the weights at the common boundary
+    w1 = A1[tuple(I1)][...,3].sum()
+    w2 = A2[tuple(I3)][...,3].sum()
+    if w1 != w2: A2 = A2*(w1/w2)
+    Ar = A2[tuple(I2)]
+    Ac = (A1[tuple(I1)]+A2[tuple(I3)])/2.0
     Ic = [slice(None)] * (dim+1)
     Ic[axis] = np.newaxis
     Ac = Ac[tuple(Ic)]
-- 
2.43.0


From c73a6ddeae4a93336672e101c3407f5c711038dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:01 +0000
Subject: [PATCH 12/16] fix: refine sorts a copy of the given values, not the
 caller's array

---
 igakit/nurbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index 6093a93..ebb64ab 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -1061,7 +1061,7 @@ class NURBS(object):
             return u
         #
         if values is None: return self
-        values = np.asarray(values, dtype='d').ravel()
+        values = np.array(values, dtype='d').ravel()
         if values.size == 0: return self
         axis = range(self.dim)[axis]
         p = self.degree[axis]
-- 
2.43.0


From 557cdf27aae04da3327e6f294f53ebf41be869aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:04 +0000
Subject: [PATCH 13/16] fix: a parameter within rounding of a knot is that knot
 (insert, remove, refine, slice, extract)

---
 igakit/nurbs.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index ebb64ab..266747d 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -15,6 +15,13 @@ except AttributeError:
 
 __all__ = ['NURBS', 'transform']
 
+def _snap(p, U, u):
+    # The knot that u equals up to rounding (see FindMult), or u itself
+    k = _bsp.FindSpan(p, U, u)
+    for i in (k, k+1):
+        if abs(u - U[i]) <= np.finfo('d').eps: return U[i]
+    return u
+
 class NURBS(object):
     """
     An abstract NURBS object class.
@@ -774,6 +781,7 @@ class NURBS(object):
         p = self.degree[axis]
         U = knots[axis]
         assert U[p] <= value <= U[-p-1]
+        value = _snap(p, U, value)
         #
         mult = _bsp.FindMult(p, U, value)
         mult = min(mult, p)
@@ -853,6 +861,7 @@ class NURBS(object):
         p = self.degree[axis]
         U = knots[axis]
         assert U[p] <= value <= U[-p-1]
+        value = _snap(p, U, value)
         #
         mult = _bsp.FindMult(p, U, value)
         mult = min(mult, p)
@@ -1054,6 +1063,9 @@ class NURBS(object):
             u.sort(kind='heapsort')
             assert u[ 0] >= U[p]
             assert u[-1] <= U[-p-1]
+            for i in range(u.size):
+                u[i] = _snap(p, U, u[i])
+                if i and u[i]-u[i-1] <= np.finfo('d').eps: u[i] = u[i-1]
             tmp = np.concatenate((u, U[1:-1]))
             _, i = _np_unique(tmp, return_inverse=True)
             mult = np.bincount(i)
@@ -1232,6 +1244,8 @@ class NURBS(object):
         end = float(end)
         assert start >= U[p]
         assert end <= U[-p-1]
+        start = _snap(p, U, start)
+        end = _snap(p, U, end)
         assert start < end
         #
         FindSpanMult = _bsp.FindSpanMult
@@ -1324,6 +1338,7 @@ class NURBS(object):
         u = float(value)
         assert u >= U[p]
         assert u <= U[-p-1]
+        u = _snap(p, U, u)
         array = self.array.view()
         knots = list(self.knots)
         #
-- 
2.43.0


From 39cfc68cc755995693d6c40bea9fb5e2113ee9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:08 +0000
Subject: [PATCH 14/16] fix: inserting or refining at an unclamped end keeps
 the end span nonempty

---
 igakit/nurbs.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/igakit/nurbs.py b/igakit/nurbs.py
index 266747d..96757f0 100644
--- a/igakit/nurbs.py
+++ b/igakit/nurbs.py
@@ -794,6 +794,9 @@ class NURBS(object):
         shape = Pw.shape
         Pw = Pw.reshape((shape[0], -1))
         V, Qw = InsertKnot(p, U, Pw, value, times)
+        # an unclamped end keeps a nonempty span next to it
+        if value == U[p]: V, Qw = V[times:].copy(), Qw[times:].copy()
+        elif value == U[-p-1]: V, Qw = V[:-times].copy(), Qw[:-times].copy()
         Qw.shape = (Qw.shape[0], ) + shape[1:]
         array = np.rollaxis(Qw, 0, axis+1)
         knots[axis] = V
@@ -1087,6 +1090,9 @@ class NURBS(object):
         shape = Pw.shape
         Pw = Pw.reshape((shape[0], -1))
         V, Qw = RefineKnotVector(p, U, Pw, u)
+        # an unclamped end keeps a nonempty span next to it
+        i, j = (u == U[p]).sum(), (u == U[-p-1]).sum()
+        V, Qw = V[i:V.size-j].copy(), Qw[i:len(Qw)-j].copy()
         Qw.shape = Qw.shape[:1] + shape[1:]
         array = np.rollaxis(Qw, 0, axis+1)
         knots[axis] = V
-- 
2.43.0


From 100e79b4fd8ba6b6bd9cbf3a15cae392eea6c58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:18 +0000
Subject: [PATCH 15/16] fix: grid and refine no longer modify arrays passed as
 arguments

---
 igakit/cad.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/igakit/cad.py b/igakit/cad.py
index bdee917..928f740 100644
--- a/igakit/cad.py
+++ b/igakit/cad.py
@@ -235,7 +235,7 @@ def grid(shape, degree=2, continuity=None,
     wrap : bool or sequence of bool, optional
 
     """
-    shape = np.asarray(shape, dtype='i')
+    shape = np.array(shape, dtype='i')
     if shape.ndim == 0:
         dim = 1
         shape.shape = (1,)
@@ -252,7 +252,7 @@ def grid(shape, degree=2, continuity=None,
     #
     if continuity is None:
         continuity = degree - 1
-    continuity = np.asarray(continuity, dtype='i')
+    continuity = np.array(continuity, dtype='i')
     if continuity.ndim == 0:
         continuity = continuity.repeat(dim)
     assert continuity.shape == (dim,)
@@ -703,7 +703,7 @@ def refine(nrb, factor=None, degree=None, continuity=None):
         if arg is None:
             return list(defval)
         dim = len(defval)
-        arg = np.asarray(arg, dtype=object)
+        arg = np.array(arg, dtype=object)
         if arg.ndim == 0:
             return arg.repeat(dim)
         assert arg.shape[0] == dim
-- 
2.43.0


From 9a97809610a5fb59b0989e1928a4dadd26a5acc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:16 +0000
Subject: [PATCH 16/16] fix: Plotter.kwire drew wrong lines for axes counted
 from the end

---
 igakit/plot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/igakit/plot.py b/igakit/plot.py
index c0e93b2..f840cf6 100644
--- a/igakit/plot.py
+++ b/igakit/plot.py
@@ -128,6 +128,7 @@ class Plotter(object):
         uvw = nurbs.breaks()
         lines = []
         for axis in axes:
+            axis = range(nurbs.dim)[axis]
             u = uvw[axis]
             resolution = self.backend._resolution[1]
             a = np.linspace(u[0], u[-1], resolution)
-- 
2.43.0

