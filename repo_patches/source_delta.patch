From fbb583903f12c278703d95ea4770683a30cbf6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:04 +0000
Subject: [PATCH 01/27] fix: index the broadcast wavenumber arrays of the
 cython 2D cross product within bounds

---
 spectralDNS/optimization/cython_maths.in | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spectralDNS/optimization/cython_maths.in b/spectralDNS/optimization/cython_maths.in
index 918fefe..6019d52 100644
--- a/spectralDNS/optimization/cython_maths.in
+++ b/spectralDNS/optimization/cython_maths.in
@@ -138,8 +138,8 @@ def _cross3_2D(np.ndarray[complex_t, ndim=2] c,
 
     for i in xrange(b.shape[1]):
         for j in xrange(b.shape[2]):
-            a0 = kx[i,j]
-            a1 = ky[i,j]
+            a0 = kx[i,0]
+            a1 = ky[0,j]
             b0 = b[0,i,j]
             b1 = b[1,i,j]
             c[i,j].real = -(a0*b1.imag - a1*b0.imag)
-- 
2.43.0


From d0ad98c3966e52314d48b5c67b978fa90f862416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:04 +0000
Subject: [PATCH 02/27] fix: cython AB2_2D starts with an Euler step on step 0,
 as all other versions do

---
 spectralDNS/optimization/cython_integrators.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spectralDNS/optimization/cython_integrators.in b/spectralDNS/optimization/cython_integrators.in
index 80ef204..3253ab3 100644
--- a/spectralDNS/optimization/cython_integrators.in
+++ b/spectralDNS/optimization/cython_integrators.in
@@ -165,7 +165,7 @@ def AB2_2D(np.ndarray[complex_t, ndim=3] U_hat,
     cdef unsigned int rk, i, j, k
     dU = solver.ComputeRHS(dU, U_hat, solver, **context)
 
-    if tstep == 1:
+    if tstep == 0:
         for i in range(dU.shape[0]):
             for j in range(dU.shape[1]):
                 for k in range(dU.shape[2]):
-- 
2.43.0


From ddda1c892087b2a2266d6d189e620838e6fb49a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:28 +0000
Subject: [PATCH 03/27] fix: cython ForwardEuler takes the arguments it is
 called with

---
 spectralDNS/optimization/cython_integrators.in | 2 --
 1 file changed, 2 deletions(-)

diff --git a/spectralDNS/optimization/cython_integrators.in b/spectralDNS/optimization/cython_integrators.in
index 3253ab3..94b299e 100644
--- a/spectralDNS/optimization/cython_integrators.in
+++ b/spectralDNS/optimization/cython_integrators.in
@@ -52,7 +52,6 @@ def RK4(np.ndarray[complex_t, ndim=4] U_hat,
     return U_hat, dt, dt
 
 def ForwardEuler(np.ndarray[complex_t, ndim=4] U_hat,
-                 np.ndarray[complex_t, ndim=4] U_hat0,
                  np.ndarray[complex_t, ndim=4] dU,
                  real_t dt,
                  solver,
@@ -139,7 +138,6 @@ def RK4_2D(np.ndarray[complex_t, ndim=3] U_hat,
     return U_hat, dt, dt
 
 def ForwardEuler_2D(np.ndarray[complex_t, ndim=3] U_hat,
-                    np.ndarray[complex_t, ndim=3] U_hat0,
                     np.ndarray[complex_t, ndim=3] dU,
                     real_t dt,
                     solver,
-- 
2.43.0


From 7a1a688fa995825ededd1cac7b173bf500f8f8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:28 +0000
Subject: [PATCH 04/27] fix: AB2 and BS5 have no history on their first step,
 whatever the step counter says

---
 spectralDNS/maths/integrators.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spectralDNS/maths/integrators.py b/spectralDNS/maths/integrators.py
index 3f97ce5..f246be2 100644
--- a/spectralDNS/maths/integrators.py
+++ b/spectralDNS/maths/integrators.py
@@ -179,6 +179,8 @@ def getintegrator(rhs, u0, solver, context):
     """
     params = solver.params
     u1 = u0.copy()
+    # Multistep and FSAL schemes have no history before their own first step
+    tstep0 = params.tstep
 
     if params.integrator == "RK4":
         # RK4 parameters
@@ -222,7 +224,7 @@ def getintegrator(rhs, u0, solver, context):
         def func():
             return adaptiveRK(A, b, bhat, err_order, fY_hat, u1, sc, err, fsal,
                               offset, params.TOL, params.TOL, adaptive, errnorm,
-                              rhs, u0, solver, params.dt, params.tstep, context,
+                              rhs, u0, solver, params.dt, params.tstep-tstep0, context,
                               solver.additional_callback, params)
         return func
 
@@ -235,5 +237,5 @@ def getintegrator(rhs, u0, solver, context):
     elif params.integrator == "AB2":
         @wraps(AB2)
         def func():
-            return AB2(u0, u1, rhs, params.dt, params.tstep, solver, context)
+            return AB2(u0, u1, rhs, params.dt, params.tstep-tstep0, solver, context)
         return func
-- 
2.43.0


From 8493c46393c8d8fc5a76a807bd9a6998301a3d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:14 +0000
Subject: [PATCH 05/27] fix: the adaptive error estimate is an average over all
 modes, not over those of process 0

---
 spectralDNS/maths/integrators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spectralDNS/maths/integrators.py b/spectralDNS/maths/integrators.py
index f246be2..e364078 100644
--- a/spectralDNS/maths/integrators.py
+++ b/spectralDNS/maths/integrators.py
@@ -93,7 +93,7 @@ def adaptiveRK(A, b, bhat, err_order, fY_hat, u0_new, sc, err, fsal, offset,
             if comm.Get_rank() == 0:
                 est_to_bcast = np.zeros(1)
                 est = np.max(np.sqrt(nsquared))
-                est /= np.sqrt(np.array(context.T.shape(True)).prod())
+                est /= np.sqrt(np.array(context.T.global_shape(True)).prod())
                 est_to_bcast[0] = est
             est_to_bcast = comm.bcast(est_to_bcast, root=0)
             est = est_to_bcast[0]
@@ -108,7 +108,7 @@ def adaptiveRK(A, b, bhat, err_order, fY_hat, u0_new, sc, err, fsal, offset,
             x = np.zeros(asdf.shape)
             comm.Allreduce(asdf, x, op=MPI.MAX)
             est = np.abs(np.max(x))
-            est /= np.sqrt(np.array(context.T.shape(True)).prod())
+            est /= np.sqrt(np.array(context.T.global_shape(True)).prod())
         else:
             assert False, "Wrong error norm"
 
-- 
2.43.0


From 614de7eeaed4cd3d5246e9767b8d95683085bd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:14 +0000
Subject: [PATCH 06/27] fix: closing output files that were never opened, when
 no time step fits in the run

---
 spectralDNS/h5io/HDF5File.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spectralDNS/h5io/HDF5File.py b/spectralDNS/h5io/HDF5File.py
index cf7de8d..360a58c 100644
--- a/spectralDNS/h5io/HDF5File.py
+++ b/spectralDNS/h5io/HDF5File.py
@@ -99,9 +99,9 @@ class HDF5File(object):
         self.wfile.open()
 
     def close(self):
-        if self.cfile.f:
+        if self.cfile is not None and self.cfile.f:
             self.cfile.close()
-        if self.wfile.f:
+        if self.wfile is not None and self.wfile.f:
             self.wfile.close()
 
     @staticmethod
-- 
2.43.0


From bf7e3793c43c35f188aaefa0edc661df66036fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:14 +0000
Subject: [PATCH 07/27] fix: no profile is made of a run without time steps

---
 spectralDNS/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spectralDNS/__init__.py b/spectralDNS/__init__.py
index 210ded7..8691dfa 100644
--- a/spectralDNS/__init__.py
+++ b/spectralDNS/__init__.py
@@ -115,7 +115,7 @@ def solve(solver, context):
 
     solver.timer.final(params.verbose)
 
-    if params.make_profile:
+    if params.make_profile and solver.profiler.getstats():
         solver.results = solver.create_profile(solver.profiler)
 
     solver.regression_test(context)
-- 
2.43.0


From 8562495e349acfa2cb8267f9ee4311f311bd8497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:46 +0000
Subject: [PATCH 08/27] fix: the checkpoint of a file that is continued keeps
 its time and step

---
 spectralDNS/h5io/HDF5File.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spectralDNS/h5io/HDF5File.py b/spectralDNS/h5io/HDF5File.py
index 360a58c..e3573c7 100644
--- a/spectralDNS/h5io/HDF5File.py
+++ b/spectralDNS/h5io/HDF5File.py
@@ -67,8 +67,10 @@ class HDF5File(object):
                                      self.checkpoint['space'],
                                      mode=params.filemode)
             self.cfile.open()
-            self.cfile.f.attrs.create('tstep', 0)
-            self.cfile.f.attrs.create('t', 0.0)
+            # The checkpoint of a continued file (filemode 'a') keeps its step
+            if 'tstep' not in self.cfile.f.attrs:
+                self.cfile.f.attrs.create('tstep', 0)
+                self.cfile.f.attrs.create('t', 0.0)
             self.cfile.close()
         if self.wfile is None:
             self.wfile = ShenfunFile(self.filename+'_w',
-- 
2.43.0


From f40538756ac4f424dca88ad1ce070460502b2068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:35 +0000
Subject: [PATCH 09/27] fix: the divergence form of KMM expands all products in
 the Dirichlet basis

---
 spectralDNS/solvers/KMM.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/spectralDNS/solvers/KMM.py b/spectralDNS/solvers/KMM.py
index bb958b0..7b65eb0 100644
--- a/spectralDNS/solvers/KMM.py
+++ b/spectralDNS/solvers/KMM.py
@@ -326,15 +326,17 @@ def divergenceConvection(rhs, u_dealias, u_hat, K, VFSp, FSTp, FSBp, FCTp, work,
     """c_i = div(u_i u_j)"""
     if not add:
         rhs.fill(0)
-    F_tmp = Function(VFSp, buffer=work[(rhs, 0, True)])
-    F_tmp2 = Function(VFSp, buffer=work[(rhs, 1, True)])
+    # All products and their derivatives are expanded in the Dirichlet basis
+    VFSTp = VectorSpace([FSTp, FSTp, FSTp])
+    F_tmp = Function(VFSTp, buffer=work[(rhs, 0, True)])
+    F_tmp2 = Function(VFSTp, buffer=work[(rhs, 1, True)])
     U = u_dealias
 
     F_tmp[0] = FSTp.forward(U[0]*U[0], F_tmp[0])
     F_tmp[1] = FSTp.forward(U[0]*U[1], F_tmp[1])
     F_tmp[2] = FSTp.forward(U[0]*U[2], F_tmp[2])
 
-    F_tmp2 = project(Dx(F_tmp, 0, 1), VFSp, output_array=F_tmp2)
+    F_tmp2 = project(Dx(F_tmp, 0, 1), VFSTp, output_array=F_tmp2)
     rhs += F_tmp2
 
     F_tmp2[0] = FSTp.forward(U[0]*U[1], F_tmp2[0])
-- 
2.43.0


From f3cef43676612a19dd9665efce52a313a68141d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:30 +0000
Subject: [PATCH 10/27] fix: standard, divergence and skew convection of KMMr
 use its own axes

---
 spectralDNS/solvers/KMMr.py | 74 +++++++++++++++----------------------
 1 file changed, 30 insertions(+), 44 deletions(-)

diff --git a/spectralDNS/solvers/KMMr.py b/spectralDNS/solvers/KMMr.py
index a38d0ae..b26bb3d 100644
--- a/spectralDNS/solvers/KMMr.py
+++ b/spectralDNS/solvers/KMMr.py
@@ -14,6 +14,7 @@ from shenfun.chebyshev.la import Helmholtz, Biharmonic
 from .spectralinit import *
 from ..shen.Matrices import BiharmonicCoeff, HelmholtzCoeff
 from ..shen import LUsolve
+from shenfun import project
 
 def get_context():
     """Set up context for solver"""
@@ -284,34 +285,26 @@ def standardConvection(rhs, u_dealias, u_hat, K, VFSp, FSTp, FSBp, FCTp, work,
                        mat, la):
     rhs[:] = 0
     U = u_dealias
-    Uc = work[(U, 1, True)]
     Uc2 = work[(U, 2, True)]
-    F_tmp = work[(rhs, 0, True)]
 
-    # dudx = 0 from continuity equation. Use Shen Dirichlet basis
-    # Use regular Chebyshev basis for dvdx and dwdx
-    F_tmp[0] = mat.CDB.matvec(u_hat[0], F_tmp[0])
-    F_tmp[0] = la.TDMASolverD(F_tmp[0])
-    dudx = Uc[0] = FSTp.backward(F_tmp[0], Uc[0])
-
-    LUsolve.Mult_CTD_3D_n(params.N[0], u_hat[1], u_hat[2], F_tmp[1], F_tmp[2])
-    dvdx = Uc[1] = FCTp.backward(F_tmp[1], Uc[1])
-    dwdx = Uc[2] = FCTp.backward(F_tmp[2], Uc[2])
+    # dwdz = 0 on walls from continuity equation. Use Shen Dirichlet basis
+    # Use regular Chebyshev basis for dudz and dvdz
+    dudz = project(Dx(u_hat[0], 2, 1), FCTp).backward()
+    dvdz = project(Dx(u_hat[1], 2, 1), FCTp).backward()
+    dwdz = project(Dx(u_hat[2], 2, 1), FSTp).backward()
 
-    dudy = Uc2[0] = FSBp.backward(1j*K[1]*u_hat[0], Uc2[0])
-    dudz = Uc2[1] = FSBp.backward(1j*K[2]*u_hat[0], Uc2[1])
+    dudx = Uc2[0] = FSTp.backward(1j*K[0]*u_hat[0], Uc2[0])
+    dudy = Uc2[1] = FSTp.backward(1j*K[1]*u_hat[0], Uc2[1])
     rhs[0] = FSTp.forward(U[0]*dudx + U[1]*dudy + U[2]*dudz, rhs[0])
 
     Uc2[:] = 0
-    dvdy = Uc2[0] = FSTp.backward(1j*K[1]*u_hat[1], Uc2[0])
-
-    dvdz = Uc2[1] = FSTp.backward(1j*K[2]*u_hat[1], Uc2[1])
+    dvdx = Uc2[0] = FSTp.backward(1j*K[0]*u_hat[1], Uc2[0])
+    dvdy = Uc2[1] = FSTp.backward(1j*K[1]*u_hat[1], Uc2[1])
     rhs[1] = FSTp.forward(U[0]*dvdx + U[1]*dvdy + U[2]*dvdz, rhs[1])
 
     Uc2[:] = 0
-    dwdy = Uc2[0] = FSTp.backward(1j*K[1]*u_hat[2], Uc2[0])
-    dwdz = Uc2[1] = FSTp.backward(1j*K[2]*u_hat[2], Uc2[1])
-
+    dwdx = Uc2[0] = FSBp.backward(1j*K[0]*u_hat[2], Uc2[0])
+    dwdy = Uc2[1] = FSBp.backward(1j*K[1]*u_hat[2], Uc2[1])
     rhs[2] = FSTp.forward(U[0]*dwdx + U[1]*dwdy + U[2]*dwdz, rhs[2])
 
     return rhs
@@ -321,36 +314,29 @@ def divergenceConvection(rhs, u_dealias, u_hat, K, VFSp, FSTp, FSBp, FCTp, work,
     """c_i = div(u_i u_j)"""
     if not add:
         rhs.fill(0)
-    F_tmp = work[(rhs, 0, True)]
-    F_tmp2 = work[(rhs, 1, True)]
+    # All products and their derivatives are expanded in the Dirichlet basis
+    VFSTp = VectorSpace([FSTp, FSTp, FSTp])
+    F_tmp = Function(VFSTp, buffer=work[(rhs, 0, True)])
+    F_tmp2 = Function(VFSTp, buffer=work[(rhs, 1, True)])
     U = u_dealias
 
-    F_tmp[0] = FSTp.forward(U[0]*U[0], F_tmp[0])
-    F_tmp[1] = FSTp.forward(U[0]*U[1], F_tmp[1])
-    F_tmp[2] = FSTp.forward(U[0]*U[2], F_tmp[2])
-
-    F_tmp2[0] = mat.CDD.matvec(F_tmp[0], F_tmp2[0])
-    F_tmp2[1] = mat.CDD.matvec(F_tmp[1], F_tmp2[1])
-    F_tmp2[2] = mat.CDD.matvec(F_tmp[2], F_tmp2[2])
-    F_tmp2[0] = la.TDMASolverD(F_tmp2[0])
-    F_tmp2[1] = la.TDMASolverD(F_tmp2[1])
-    F_tmp2[2] = la.TDMASolverD(F_tmp2[2])
-    rhs[0] += F_tmp2[0]
-    rhs[1] += F_tmp2[1]
-    rhs[2] += F_tmp2[2]
-
-    F_tmp2[0] = FSTp.forward(U[0]*U[1], F_tmp2[0])
-    F_tmp2[1] = FSTp.forward(U[0]*U[2], F_tmp2[1])
-    rhs[0] += 1j*K[1]*F_tmp2[0] # duvdy
-    rhs[0] += 1j*K[2]*F_tmp2[1] # duwdz
-
-    F_tmp[0] = FSTp.forward(U[1]*U[1], F_tmp[0])
+    F_tmp[0] = FSTp.forward(U[0]*U[2], F_tmp[0])
     F_tmp[1] = FSTp.forward(U[1]*U[2], F_tmp[1])
     F_tmp[2] = FSTp.forward(U[2]*U[2], F_tmp[2])
-    rhs[1] += 1j*K[1]*F_tmp[0]  # dvvdy
-    rhs[1] += 1j*K[2]*F_tmp[1]  # dvwdz
+
+    F_tmp2 = project(Dx(F_tmp, 2, 1), VFSTp, output_array=F_tmp2)
+    rhs += F_tmp2               # duwdz, dvwdz, dwwdz
+
+    rhs[2] += 1j*K[0]*F_tmp[0]  # duwdx
     rhs[2] += 1j*K[1]*F_tmp[1]  # dvwdy
-    rhs[2] += 1j*K[2]*F_tmp[2]  # dwwdz
+
+    F_tmp[0] = FSTp.forward(U[0]*U[0], F_tmp[0])
+    F_tmp[1] = FSTp.forward(U[0]*U[1], F_tmp[1])
+    F_tmp[2] = FSTp.forward(U[1]*U[1], F_tmp[2])
+    rhs[0] += 1j*K[0]*F_tmp[0]  # duudx
+    rhs[0] += 1j*K[1]*F_tmp[1]  # duvdy
+    rhs[1] += 1j*K[0]*F_tmp[1]  # duvdx
+    rhs[1] += 1j*K[1]*F_tmp[2]  # dvvdy
 
     return rhs
 
-- 
2.43.0


From a12e032a2e9506d4323918d2f8cccc0618d54659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:53 +0000
Subject: [PATCH 11/27] fix: pressure and velocity derivatives of the channel
 solvers

KMM's get_pressure overwrote the convection the next step uses as the previous one, compute_derivatives
called a function that no longer exists, and both were not ported to KMMr.
---
 spectralDNS/solvers/KMM.py  |  6 ++--
 spectralDNS/solvers/KMMr.py | 72 +++++++++++++++++++------------------
 2 files changed, 41 insertions(+), 37 deletions(-)

diff --git a/spectralDNS/solvers/KMM.py b/spectralDNS/solvers/KMM.py
index 7b65eb0..7c14382 100644
--- a/spectralDNS/solvers/KMM.py
+++ b/spectralDNS/solvers/KMM.py
@@ -188,7 +188,9 @@ def get_pressure(context, solver):
     dt = solver.params.dt
 
     Hx = Function(FST)
-    Hx[:] = solver.get_convection(**context)[0]
+    # H_hat of the context belongs to the time stepping
+    H_hat = Function(context.VFST)
+    Hx[:] = solver.get_convection(**dict(context, H_hat=H_hat))[0]
 
     v = TestFunction(FCT)
     p = TrialFunction(FCT)
@@ -271,7 +273,7 @@ def compute_derivatives(U, U_hat, FST, FCT, FSB, K, la, mat, work, **context):
     F_tmp[0] = mat.CDB.matvec(U_hat[0], F_tmp[0])
     F_tmp[0] = la.TDMASolverD(F_tmp[0])
     duidxj[0, 0] = FST.backward(F_tmp[0], duidxj[0, 0])
-    LUsolve.Mult_CTD_3D_n(params.N[0], U_hat[1], U_hat[2], F_tmp[1], F_tmp[2])
+    LUsolve.Mult_CTD_3D_ptr(params.N[0], U_hat[1], U_hat[2], F_tmp[1], F_tmp[2], 0)
     duidxj[1, 0] = dvdx = FCT.backward(F_tmp[1], duidxj[1, 0])  # proj to Cheb
     duidxj[2, 0] = dwdx = FCT.backward(F_tmp[2], duidxj[2, 0])  # proj to Cheb
     duidxj[0, 1] = dudy = FSB.backward(1j*K[1]*U_hat[0], duidxj[0, 1]) # ShenB
diff --git a/spectralDNS/solvers/KMMr.py b/spectralDNS/solvers/KMMr.py
index b26bb3d..66af2f4 100644
--- a/spectralDNS/solvers/KMMr.py
+++ b/spectralDNS/solvers/KMMr.py
@@ -181,43 +181,45 @@ def get_pressure(context, solver):
     FCT = context.FCT
     FST = context.FST
 
-    U = solver.get_velocity(**context)
-    U0 = context.VFS.backward(context.U_hat0, context.U0)
+    U_hat = context.U_hat
+    U_hat0 = context.U_hat0
+    Um = Function(FST)
+    Um[:] = 0.5*(U_hat[2] + U_hat0[2])
+    U = U_hat.backward(context.U)
+    U0 = U_hat0.backward(context.U0)
     dt = solver.params.dt
 
-    H_hat = solver.get_convection(**context)
-    Hx = Array(FST)
-    Hx = FST.backward(H_hat[0], Hx)
+    Hx = Function(FST)
+    # H_hat of the context belongs to the time stepping
+    H_hat = Function(context.VFST)
+    Hx[:] = solver.get_convection(**dict(context, H_hat=H_hat))[2]
 
     v = TestFunction(FCT)
     p = TrialFunction(FCT)
-    U = U.as_function()
-    U0 = U0.as_function()
-
-    rhs_hat = inner((0.5*context.nu)*div(grad(U[0]+U0[0])), v)
-    Hx -= 1./dt*(U[0]-U0[0])
+    rhs_hat = inner(context.nu*div(grad(Um)), v)
+    Hx -= 1./dt*(U_hat[2]-U_hat0[2])
     rhs_hat += inner(Hx, v)
 
-    CT = inner(Dx(p, 0), v)
+    CT = inner(Dx(p, 2, 1), v)
 
     # Should implement fast solver. Just a backwards substitution
-    A = CT.diags().toarray()*CT.scale[0]
-    A[-1, 0] = 1
-    a_i = np.linalg.inv(A)
-
-    p_hat = Function(context.FCT)
+    # Apply integral constraint
+    A = CT.mats[2]
+    N = A.shape[0]
+    A[-(N-1)] = 1
 
-    for j in range(p_hat.shape[1]):
-        for k in range(p_hat.shape[2]):
-            p_hat[:, j, k] = np.dot(a_i, rhs_hat[:, j, k])
+    p_hat = Function(FCT)
+    p_hat = CT.solve(rhs_hat, p_hat)
 
     p = Array(FCT)
     p = FCT.backward(p_hat, p)
 
-    uu = np.sum((0.5*(U+U0))**2, 0)
-    uu *= 0.5
+    uu = 0.
+    if params.convection == 'Vortex':
+        uu = np.sum((0.5*(U+U0))**2, 0)
+        uu *= 0.5
 
-    return p-uu+3./16.
+    return p-uu
 
 def get_divergence(U, U_hat, FST, K, Kx, work, la, mat, **context):
     Uc_hat = work[(U_hat[0], 0, True)]
@@ -265,20 +267,20 @@ def compute_curl(c, u_hat, g, K, FCTp, FSTp, FSBp, work):
 def compute_derivatives(U, U_hat, FST, FCT, FSB, K, la, mat, work, **context):
     duidxj = np.zeros((3, 3)+U.shape[1:])
     F_tmp = work[(U_hat, 0, True)]
-    # dudx = 0 from continuity equation. Use Shen Dirichlet basis
-    # Use regular Chebyshev basis for dvdx and dwdx
-    F_tmp[0] = mat.CDB.matvec(U_hat[0], F_tmp[0])
-    F_tmp[0] = la.TDMASolverD(F_tmp[0])
-    duidxj[0, 0] = FST.backward(F_tmp[0], duidxj[0, 0])
-    LUsolve.Mult_CTD_3D_n(params.N[0], U_hat[1], U_hat[2], F_tmp[1], F_tmp[2])
-    duidxj[1, 0] = dvdx = FCT.backward(F_tmp[1], duidxj[1, 0])  # proj to Cheb
-    duidxj[2, 0] = dwdx = FCT.backward(F_tmp[2], duidxj[2, 0])  # proj to Cheb
-    duidxj[0, 1] = dudy = FSB.backward(1j*K[1]*U_hat[0], duidxj[0, 1]) # ShenB
-    duidxj[0, 2] = dudz = FSB.backward(1j*K[2]*U_hat[0], duidxj[0, 2])
+    # dwdz = 0 on walls from continuity equation. Use Shen Dirichlet basis
+    # Use regular Chebyshev basis for dudz and dvdz
+    F_tmp[2] = mat.CDB.matvec(U_hat[2], F_tmp[2], axis=2)
+    F_tmp[2] = la.TDMASolverD(F_tmp[2], axis=2)
+    duidxj[2, 2] = FST.backward(F_tmp[2], duidxj[2, 2])
+    LUsolve.Mult_CTD_3D_ptr(params.N[2], U_hat[0], U_hat[1], F_tmp[0], F_tmp[1], 2)
+    duidxj[0, 2] = dudz = FCT.backward(F_tmp[0], duidxj[0, 2])  # proj to Cheb
+    duidxj[1, 2] = dvdz = FCT.backward(F_tmp[1], duidxj[1, 2])  # proj to Cheb
+    duidxj[2, 0] = dwdx = FSB.backward(1j*K[0]*U_hat[2], duidxj[2, 0]) # ShenB
+    duidxj[2, 1] = dwdy = FSB.backward(1j*K[1]*U_hat[2], duidxj[2, 1])
+    duidxj[0, 0] = dudx = FST.backward(1j*K[0]*U_hat[0], duidxj[0, 0])
+    duidxj[0, 1] = dudy = FST.backward(1j*K[1]*U_hat[0], duidxj[0, 1])
+    duidxj[1, 0] = dvdx = FST.backward(1j*K[0]*U_hat[1], duidxj[1, 0])
     duidxj[1, 1] = dvdy = FST.backward(1j*K[1]*U_hat[1], duidxj[1, 1])
-    duidxj[1, 2] = dvdz = FST.backward(1j*K[2]*U_hat[1], duidxj[1, 2])
-    duidxj[2, 1] = dwdy = FST.backward(1j*K[1]*U_hat[2], duidxj[2, 1])
-    duidxj[2, 2] = dwdz = FST.backward(1j*K[2]*U_hat[2], duidxj[2, 2])
     return duidxj
 
 def standardConvection(rhs, u_dealias, u_hat, K, VFSp, FSTp, FSBp, FCTp, work,
-- 
2.43.0


From 9769a5980d847b0373fa4ccbb81705207bcfda0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:46 +0000
Subject: [PATCH 12/27] fix: the temperature of the Rayleigh-Benard solvers is
 the solution of its equation

The Helmholtz solver was given the old temperature as right hand side and the right hand side as
output, so the temperature never changed.
---
 spectralDNS/solvers/KMMRK3_RB.py | 2 +-
 spectralDNS/solvers/KMM_RB.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spectralDNS/solvers/KMMRK3_RB.py b/spectralDNS/solvers/KMMRK3_RB.py
index 0721c49..5ef6458 100644
--- a/spectralDNS/solvers/KMMRK3_RB.py
+++ b/spectralDNS/solvers/KMMRK3_RB.py
@@ -79,7 +79,7 @@ def ComputeRHS(rhs, u_hat, g_hat, p_hat, rk, solver, context):
 
 def solve_linear(u_hat, g_hat, p_hat, rhs, rk, context):
     u_hat, g_hat = KMMRK3_solve_linear(u_hat, g_hat, rhs, rk, **context)
-    p_hat = context.la.HelmholtzSolverT[rk](p_hat, rhs[2])
+    p_hat = context.la.HelmholtzSolverT[rk](rhs[2], p_hat)
     return u_hat, g_hat, p_hat
 
 def DivRBConvection(rhs, u_hat, g_hat, p_hat,
diff --git a/spectralDNS/solvers/KMM_RB.py b/spectralDNS/solvers/KMM_RB.py
index d6d7c30..0d52600 100644
--- a/spectralDNS/solvers/KMM_RB.py
+++ b/spectralDNS/solvers/KMM_RB.py
@@ -94,7 +94,7 @@ def ComputeRHS(rhs, u_hat, g_hat, p_hat, solver, context):
 
 def solve_linear(u_hat, g_hat, p_hat, rhs, context):
     u_hat, g_hat = KMM_solve_linear(u_hat, g_hat, rhs, **context)
-    p_hat = context.la.HelmholtzSolverT(p_hat, rhs[2])
+    p_hat = context.la.HelmholtzSolverT(rhs[2], p_hat)
     return u_hat, g_hat, p_hat
 
 def DivRBConvection(rhs, u_hat, g_hat, p_hat,
-- 
2.43.0


From b448d977158b9306aee19909984712509241afe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:46 +0000
Subject: [PATCH 13/27] fix: temperature matrices of the Rayleigh-Benard
 solvers use the quadrature of the other spaces

---
 spectralDNS/solvers/KMMRK3_RB.py | 2 +-
 spectralDNS/solvers/KMM_RB.py    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/spectralDNS/solvers/KMMRK3_RB.py b/spectralDNS/solvers/KMMRK3_RB.py
index 5ef6458..0bd4294 100644
--- a/spectralDNS/solvers/KMMRK3_RB.py
+++ b/spectralDNS/solvers/KMMRK3_RB.py
@@ -15,7 +15,7 @@ KMMRK3_solve_linear = solve_linear
 def get_context():
     c = KMMRK3_context()
 
-    c.RB = RB = FunctionSpace(config.params.N[0], 'C', bc=(1, 0))
+    c.RB = RB = FunctionSpace(config.params.N[0], 'C', bc=(1, 0), quad=config.params.Dquad)
     c.FRB = FRB = TensorProductSpace(comm, (RB, c.K0, c.K1), **c.kw0)
     c.FRBp = FRBp = FRB.get_dealiased(**c.kw)
 
diff --git a/spectralDNS/solvers/KMM_RB.py b/spectralDNS/solvers/KMM_RB.py
index 0d52600..79fd3e6 100644
--- a/spectralDNS/solvers/KMM_RB.py
+++ b/spectralDNS/solvers/KMM_RB.py
@@ -15,7 +15,7 @@ KMM_solve_linear = solve_linear
 def get_context():
     c = KMM_context()
 
-    c.RB = RB = FunctionSpace(config.params.N[0], 'C', bc=(1, 0))
+    c.RB = RB = FunctionSpace(config.params.N[0], 'C', bc=(1, 0), quad=config.params.Dquad)
     c.FRB = FRB = TensorProductSpace(comm, (RB, c.K0, c.K1), **c.kw0)
     c.FRBp = FRBp = FRB.get_dealiased(**c.kw)
 
@@ -43,7 +43,7 @@ def get_context():
     c.la.HelmholtzSolverT = Helmholtz(ADD, BDD,
                                       -np.ones((1, 1, 1)),
                                       (c.K2[0]+2.0/kappa/dt)[np.newaxis, :, :])
-    c.TC = HelmholtzCoeff(config.params.N[0], 1.0, (2./kappa/dt-c.K2), 0)
+    c.TC = HelmholtzCoeff(config.params.N[0], 1.0, (2./kappa/dt-c.K2), 0, c.ST.quad)
 
     c.hdf5file = RBFile(config.params.solver,
                         checkpoint={'space': c.VFS,
-- 
2.43.0


From 251cf8511c22b6337b14e2a01c4ce15912009518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:46 +0000
Subject: [PATCH 14/27] fix: sign of the temperature gradient given by the wall
 values

The next to last coefficient is the value at x=-1, the last the value at x=1.
---
 spectralDNS/solvers/KMMRK3_RB.py | 4 ++--
 spectralDNS/solvers/KMM_RB.py    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/spectralDNS/solvers/KMMRK3_RB.py b/spectralDNS/solvers/KMMRK3_RB.py
index 0bd4294..20ed702 100644
--- a/spectralDNS/solvers/KMMRK3_RB.py
+++ b/spectralDNS/solvers/KMMRK3_RB.py
@@ -65,7 +65,7 @@ def ComputeRHS(rhs, u_hat, g_hat, p_hat, rk, solver, context):
     #w0 = c.mat.ABD.matvec(p_hat, w0)
     w0 = -c.K2*c.mat.BBD.matvec(p_hat, w1)
     w0[0] -= 0.5*c.BTT[0][0]*(p_hat[-2]+p_hat[-1])*c.K2[0]
-    w0[1] -= 0.5*c.BTT[0][1]*(p_hat[-2]-p_hat[-1])*c.K2[0]
+    w0[1] -= 0.5*c.BTT[0][1]*(p_hat[-1]-p_hat[-2])*c.K2[0]
     rhs[0] += config.params.dt*(c.a[rk]+c.b[rk])*w0
     #c.N_hat = DivRBConvection(c.N_hat, u_hat, g_hat, p_hat, **context)
     c.N_hat = StandardRBConvection(c.N_hat, u_hat, g_hat, p_hat, **context)
@@ -108,7 +108,7 @@ def StandardRBConvection(rhs, u_hat, g_hat, p_hat,
     N = work[(Ua[0], 0, True)]
     Ua = VFSp.backward(u_hat, Ua)
     dTdx_hat = CTD.matvec(p_hat, dTdx_hat)
-    dTdx_hat[0] += 0.5*BTT[0][0]*(p_hat[-2]-p_hat[-1])
+    dTdx_hat[0] += 0.5*BTT[0][0]*(p_hat[-1]-p_hat[-2])
     dTdx_hat = BTT.solve(dTdx_hat)
     dTdxi[0] = FCTp.backward(dTdx_hat, dTdxi[0])
     dTdxi[1] = FSTp.backward(1j*K[1]*p_hat, dTdxi[1])
diff --git a/spectralDNS/solvers/KMM_RB.py b/spectralDNS/solvers/KMM_RB.py
index 79fd3e6..d292ac7 100644
--- a/spectralDNS/solvers/KMM_RB.py
+++ b/spectralDNS/solvers/KMM_RB.py
@@ -79,7 +79,7 @@ def ComputeRHS(rhs, u_hat, g_hat, p_hat, solver, context):
     #w0 = c.mat.ABD.matvec(phi_ab, w0)
     w0 = -c.K2*c.mat.BBD.matvec(phi_ab, w1)
     w0[0] -= 0.5*c.BTT[0][0]*(phi_ab[-2]+phi_ab[-1])*c.K2[0]
-    w0[1] -= 0.5*c.BTT[0][1]*(phi_ab[-2]-phi_ab[-1])*c.K2[0]
+    w0[1] -= 0.5*c.BTT[0][1]*(phi_ab[-1]-phi_ab[-2])*c.K2[0]
     rhs[0] += config.params.dt*w0
     rhs[2] = DivRBConvection(rhs[2], u_hat, g_hat, p_hat, **context)
     #rhs[2] = DivABConvection(rhs[2], u_hat, g_hat, p_hat, **context)
@@ -143,7 +143,7 @@ def StandardRBConvection(rhs, u_hat, g_hat, p_hat,
     N = work[(UCN[0], 0, True)]
     UCN = VFSp.backward(U_hat0, UCN)
     dTdx_hat = CTD.matvec(p_hat, dTdx_hat)
-    dTdx_hat[0] += 0.5*BTT[0][0]*(p_hat[-2]-p_hat[-1])
+    dTdx_hat[0] += 0.5*BTT[0][0]*(p_hat[-1]-p_hat[-2])
     dTdx_hat = BTT.solve(dTdx_hat)
     dTdxi[0] = FCTp.backward(dTdx_hat, dTdxi[0])
     dTdxi[1] = FSTp.backward(1j*K[1]*p_hat, dTdxi[1])
-- 
2.43.0


From 0ebcb5d48836e7f3c1d078eec24ff7ccdc118cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:46 +0000
Subject: [PATCH 15/27] fix: the temperature flux of KMMRK3_RB is not
 overwritten by itself

matvec zeroes its output first, so with the same array as input and output the flux was always zero.
---
 spectralDNS/solvers/KMMRK3_RB.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spectralDNS/solvers/KMMRK3_RB.py b/spectralDNS/solvers/KMMRK3_RB.py
index 20ed702..c3f1811 100644
--- a/spectralDNS/solvers/KMMRK3_RB.py
+++ b/spectralDNS/solvers/KMMRK3_RB.py
@@ -114,8 +114,9 @@ def StandardRBConvection(rhs, u_hat, g_hat, p_hat,
     dTdxi[1] = FSTp.backward(1j*K[1]*p_hat, dTdxi[1])
     dTdxi[2] = FSTp.backward(1j*K[2]*p_hat, dTdxi[2])
     N[:] = Ua[0]*dTdxi[0] + Ua[1]*dTdxi[1] + Ua[2]*dTdxi[2]
-    N_hat = FSTp.forward(N, N_hat)
-    rhs = mat.BDD.matvec(N_hat, rhs)
+    # rhs is N_hat, which the product must not overwrite while reading
+    N_s = FSTp.forward(N, N_s)
+    rhs = mat.BDD.matvec(N_s, rhs)
     return rhs
 
 def integrate(u_hat, g_hat, p_hat, rhs, dt, solver, context):
-- 
2.43.0


From 40e46b205db5a56ddedcc4419ec83333cb2e7979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:20 +0000
Subject: [PATCH 16/27] fix: weight of the last Chebyshev coefficient in dx for
 Gauss-Lobatto points

With an odd number of points the coefficient of the highest polynomial
counts in the integral and was taken twice too large.
---
 spectralDNS/utilities/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spectralDNS/utilities/__init__.py b/spectralDNS/utilities/__init__.py
index 0c9d7d0..ddf3f58 100644
--- a/spectralDNS/utilities/__init__.py
+++ b/spectralDNS/utilities/__init__.py
@@ -102,6 +102,8 @@ def dx(u, FST, axis=0):
                 w[2:] = 2./(1-w[2:]**2)
                 w[0] = 1
                 w[1::2] = 0
+                # The last coefficient is, like the first, half of the DCT
+                w[-1] *= 0.5
                 return sum(ak*w)*np.prod(np.take(config.params.L/config.params.N, sx))
 
             assert quad == 'GC'
-- 
2.43.0


From 3f179a91c1f87bf1aae530162bd6a653f40c883f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:50 +0000
Subject: [PATCH 17/27] fix: options of a solver set with config.update are not
 overruled by its defaults

---
 spectralDNS/config.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/spectralDNS/config.py b/spectralDNS/config.py
index ff1771f..2123a10 100644
--- a/spectralDNS/config.py
+++ b/spectralDNS/config.py
@@ -312,3 +312,10 @@ def update(new, mesh="triplyperiodic"):
         fft_plans.update(new['planner_effort'])
         new['planner_effort'] = fft_plans
     globals()[mesh].set_defaults(**new)
+    # The options of a solver have defaults of their own, that replace those of the mesh
+    subparsers = {'triplyperiodic': trippelsubparsers,
+                  'doublyperiodic': doublesubparsers,
+                  'channel': channelsubparsers}[mesh]
+    for subparser in subparsers.choices.values():
+        own = vars(subparser.parse_args([]))
+        subparser.set_defaults(**{key: val for key, val in new.items() if key in own})
-- 
2.43.0


From a59caf6ea090e776d7f2d4ca4c96c2dcb1e86047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:50 +0000
Subject: [PATCH 18/27] fix: the convection of doubly periodic solvers is one
 of its choices, not part of one

---
 spectralDNS/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spectralDNS/config.py b/spectralDNS/config.py
index 2123a10..871d059 100644
--- a/spectralDNS/config.py
+++ b/spectralDNS/config.py
@@ -246,7 +246,7 @@ doublyperiodic.add_argument('--integrator', default='RK4',
 doublyperiodic.add_argument('--L', default=[2*pi, 2*pi], nargs=2, metavar=('Lx', 'Ly'),
                             help='Physical mesh size')
 doublyperiodic.add_argument('--convection', default='Vortex',
-                            choices=('Vortex'),
+                            choices=('Vortex',),
                             help='Choose method for computing the nonlinear convective term')
 doublyperiodic.add_argument('--TOL', type=float, default=1e-6,
                             help='Tolerance for adaptive time integrator')
-- 
2.43.0


From 4c7ff32321193d5f928e977dd5131d16bc16ffc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:08 +0000
Subject: [PATCH 19/27] fix: key access of parameters agrees with attribute
 access

---
 spectralDNS/config.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/spectralDNS/config.py b/spectralDNS/config.py
index 871d059..2a55b31 100644
--- a/spectralDNS/config.py
+++ b/spectralDNS/config.py
@@ -126,6 +126,15 @@ class Params(AttributeDict):
             return fl(dict.__getattribute__(self, key))
         return dict.__getattribute__(self, key)
 
+    def __getitem__(self, key):
+        # Same as attribute access
+        if key in ('nu', 'dt', 'Ri', 'Pr', 'eta'):
+            return getattr(self, key)
+        return dict.__getitem__(self, key)
+
+    def __missing__(self, key):
+        return self.__getattr__(key)
+
     def __setattr__(self, key, val):
         if key in ('N', 'M', 'L'):
             self.__setitem__(key, val)
-- 
2.43.0


From 11eabb10c4ddf9688924e3e6c1a17a9f21fd3403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:16 +0000
Subject: [PATCH 20/27] fix: config.update of one type of mesh does not change
 the options of the others

---
 spectralDNS/config.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/spectralDNS/config.py b/spectralDNS/config.py
index 2a55b31..f6c1a71 100644
--- a/spectralDNS/config.py
+++ b/spectralDNS/config.py
@@ -46,6 +46,7 @@ __copyright__ = "Copyright (C) 2015-2018 " + __author__
 __license__ = "GNU Lesser GPL version 3 or any later version"
 
 import argparse
+from copy import deepcopy
 from collections.abc import MutableMapping
 from collections import defaultdict
 import json
@@ -218,7 +219,7 @@ parser.add_argument('--no-mask_nyquist', dest='mask_nyquist', action='store_fals
 parser.set_defaults(mask_nyquist=True)
 
 # Arguments for 3D isotropic solvers
-triplyperiodic = argparse.ArgumentParser(parents=[parser])
+triplyperiodic = argparse.ArgumentParser(parents=[deepcopy(parser)])
 
 triplyperiodic.add_argument('--convection', default='Vortex',
                             choices=('Standard', 'Divergence', 'Skewed', 'Vortex'),
@@ -248,7 +249,7 @@ parser_Bq.add_argument('--Ri', default=0.1, type=float, help='Richardson number'
 parser_Bq.add_argument('--Pr', default=1.0, type=float, help='Prandtl number')
 
 # Arguments for 2D periodic solvers
-doublyperiodic = argparse.ArgumentParser(parents=[parser])
+doublyperiodic = argparse.ArgumentParser(parents=[deepcopy(parser)])
 doublyperiodic.add_argument('--integrator', default='RK4',
                             choices=('RK4', 'ForwardEuler', 'AB2', 'BS5_fixed', 'BS5_adaptive'),
                             help='Integrator for doubly periodic domain')
@@ -270,7 +271,7 @@ parser_Bq2D.add_argument('--Ri', default=0.1, type=float, help='Richardson numbe
 parser_Bq2D.add_argument('--Pr', default=1.0, type=float, help='Prandtl number')
 
 # Arguments for channel solvers with one inhomogeneous direction
-channel = argparse.ArgumentParser(parents=[parser])
+channel = argparse.ArgumentParser(parents=[deepcopy(parser)])
 channel.add_argument('--convection', default='Vortex',
                      choices=('Standard', 'Divergence', 'Skew', 'Vortex'),
                      help='Choose method for computing the nonlinear convective term')
-- 
2.43.0


From 39589780d5cc0a7fc0235c6e3782232ff9e42df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:17 +0000
Subject: [PATCH 21/27] fix: every profiled run makes a profile of its own
 steps, not only the first run

---
 spectralDNS/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spectralDNS/__init__.py b/spectralDNS/__init__.py
index 8691dfa..c7d3221 100644
--- a/spectralDNS/__init__.py
+++ b/spectralDNS/__init__.py
@@ -80,6 +80,7 @@ def solve(solver, context):
     """
 
     solver.timer = solver.Timer()
+    solver.profiler.clear()
     params = solver.params
 
     solver.conv = solver.getConvection(params.convection)
-- 
2.43.0


From ecb828150c9b1d71b344b21a88f15ee41d13f165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:01 +0000
Subject: [PATCH 22/27] fix: pressure of KMM and KMMr took the wall-normal
 velocity for a Dirichlet expansion and left part of it undetermined

---
 spectralDNS/solvers/KMM.py  | 30 +++++++++++++++++++++---------
 spectralDNS/solvers/KMMr.py | 30 +++++++++++++++++++++---------
 2 files changed, 42 insertions(+), 18 deletions(-)

diff --git a/spectralDNS/solvers/KMM.py b/spectralDNS/solvers/KMM.py
index 7c14382..f36cd0b 100644
--- a/spectralDNS/solvers/KMM.py
+++ b/spectralDNS/solvers/KMM.py
@@ -177,26 +177,29 @@ def get_convection(H_hat, U_hat, g, K, VFSp, FSTp, FSBp, FCTp, work, mat, la, u_
 
 def get_pressure(context, solver):
     FCT = context.FCT
-    FST = context.FST
+    VFS = context.U_hat.function_space()
+    K = context.K
 
     U_hat = context.U_hat
     U_hat0 = context.U_hat0
-    Um = Function(FST)
-    Um[:] = 0.5*(U_hat[0] + U_hat0[0])
     U = U_hat.backward(context.U)
     U0 = U_hat0.backward(context.U0)
     dt = solver.params.dt
 
-    Hx = Function(FST)
+    # Velocity at mid-step and its rate of change, in the bases of the velocity
+    Um = Function(VFS)
+    Um[:] = 0.5*(U_hat + U_hat0)
+    Ut = Function(VFS)
+    Ut[:] = 1./dt*(U_hat - U_hat0)
+
     # H_hat of the context belongs to the time stepping
     H_hat = Function(context.VFST)
-    Hx[:] = solver.get_convection(**dict(context, H_hat=H_hat))[0]
+    H_hat = solver.get_convection(**dict(context, H_hat=H_hat))
 
     v = TestFunction(FCT)
     p = TrialFunction(FCT)
-    rhs_hat = inner(context.nu*div(grad(Um)), v)
-    Hx -= 1./dt*(U_hat[0]-U_hat0[0])
-    rhs_hat += inner(Hx, v)
+    rhs_hat = [inner(context.nu*div(grad(Um[i])), v) + inner(H_hat[i], v) - inner(Ut[i], v)
+               for i in range(3)]
 
     CT = inner(Dx(p, 0, 1), v)
 
@@ -207,7 +210,16 @@ def get_pressure(context, solver):
     A[-(N-1)] = 1
 
     p_hat = Function(FCT)
-    p_hat = CT.solve(rhs_hat, p_hat)
+    p_hat = CT.solve(rhs_hat[0], p_hat)
+
+    # What is constant in the wall-normal direction follows from the
+    # tangential balance for all but the mean
+    one = Function(FCT)
+    one[0] = 1
+    m = inner(one, v)[0]
+    K2 = (K[1]**2+K[2]**2)[0]
+    p0 = -1j*(K[1]*rhs_hat[1] + K[2]*rhs_hat[2])[0]
+    p_hat[0] = np.where(K2 == 0, p_hat[0], p0/(m*np.where(K2 == 0, 1, K2)))
 
     p = Array(FCT)
     p = FCT.backward(p_hat, p)
diff --git a/spectralDNS/solvers/KMMr.py b/spectralDNS/solvers/KMMr.py
index 66af2f4..37c8ec4 100644
--- a/spectralDNS/solvers/KMMr.py
+++ b/spectralDNS/solvers/KMMr.py
@@ -179,26 +179,29 @@ def get_convection(H_hat, U_hat, g, Kx, VFSp, FSTp, FSBp, FCTp, work, mat, la, u
 
 def get_pressure(context, solver):
     FCT = context.FCT
-    FST = context.FST
+    VFS = context.U_hat.function_space()
+    K = context.K
 
     U_hat = context.U_hat
     U_hat0 = context.U_hat0
-    Um = Function(FST)
-    Um[:] = 0.5*(U_hat[2] + U_hat0[2])
     U = U_hat.backward(context.U)
     U0 = U_hat0.backward(context.U0)
     dt = solver.params.dt
 
-    Hx = Function(FST)
+    # Velocity at mid-step and its rate of change, in the bases of the velocity
+    Um = Function(VFS)
+    Um[:] = 0.5*(U_hat + U_hat0)
+    Ut = Function(VFS)
+    Ut[:] = 1./dt*(U_hat - U_hat0)
+
     # H_hat of the context belongs to the time stepping
     H_hat = Function(context.VFST)
-    Hx[:] = solver.get_convection(**dict(context, H_hat=H_hat))[2]
+    H_hat = solver.get_convection(**dict(context, H_hat=H_hat))
 
     v = TestFunction(FCT)
     p = TrialFunction(FCT)
-    rhs_hat = inner(context.nu*div(grad(Um)), v)
-    Hx -= 1./dt*(U_hat[2]-U_hat0[2])
-    rhs_hat += inner(Hx, v)
+    rhs_hat = [inner(context.nu*div(grad(Um[i])), v) + inner(H_hat[i], v) - inner(Ut[i], v)
+               for i in range(3)]
 
     CT = inner(Dx(p, 2, 1), v)
 
@@ -209,7 +212,16 @@ def get_pressure(context, solver):
     A[-(N-1)] = 1
 
     p_hat = Function(FCT)
-    p_hat = CT.solve(rhs_hat, p_hat)
+    p_hat = CT.solve(rhs_hat[2], p_hat)
+
+    # What is constant in the wall-normal direction follows from the
+    # tangential balance for all but the mean
+    one = Function(FCT)
+    one[..., 0] = 1
+    m = inner(one, v)[..., 0]
+    K2 = (K[0]**2+K[1]**2)[..., 0]
+    p0 = -1j*(K[0]*rhs_hat[0] + K[1]*rhs_hat[1])[..., 0]
+    p_hat[..., 0] = np.where(K2 == 0, p_hat[..., 0], p0/(m*np.where(K2 == 0, 1, K2)))
 
     p = Array(FCT)
     p = FCT.backward(p_hat, p)
-- 
2.43.0


From 543090b8869c96ab9a346ffb74ed7838cb9f3d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:15 +0000
Subject: [PATCH 23/27] fix: C++ program started each step from the velocity of
 the last Runge-Kutta stage

---
 cpp/spectralDNS.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/cpp/spectralDNS.cpp b/cpp/spectralDNS.cpp
index be72c6c..826affc 100644
--- a/cpp/spectralDNS.cpp
+++ b/cpp/spectralDNS.cpp
@@ -169,9 +169,13 @@ int main( int argc, char *argv[] )
      {
         if (rk > 0)
         {
-           fftw_mpi_execute_dft_c2r(irfftn, reinterpret_cast<fftw_complex*>(U_hat.data()), U.data());
-           fftw_mpi_execute_dft_c2r(irfftn, reinterpret_cast<fftw_complex*>(V_hat.data()), V.data());
-           fftw_mpi_execute_dft_c2r(irfftn, reinterpret_cast<fftw_complex*>(W_hat.data()), W.data());
+           // The c2r transform may destroy its input
+           dU = U_hat;
+           dV = V_hat;
+           dW = W_hat;
+           fftw_mpi_execute_dft_c2r(irfftn, reinterpret_cast<fftw_complex*>(dU.data()), U.data());
+           fftw_mpi_execute_dft_c2r(irfftn, reinterpret_cast<fftw_complex*>(dV.data()), V.data());
+           fftw_mpi_execute_dft_c2r(irfftn, reinterpret_cast<fftw_complex*>(dW.data()), W.data());
            for (int k=0; k<U.size(); k++)
            {
              U[k] /= tot;
@@ -268,6 +272,20 @@ int main( int argc, char *argv[] )
             W_hat[z] = W_hat1[z];
         }
 
+    // The velocity of the completed step (the c2r transform may destroy its input)
+    dU = U_hat;
+    dV = V_hat;
+    dW = W_hat;
+    fftw_mpi_execute_dft_c2r(irfftn, reinterpret_cast<fftw_complex*>(dU.data()), U.data());
+    fftw_mpi_execute_dft_c2r(irfftn, reinterpret_cast<fftw_complex*>(dV.data()), V.data());
+    fftw_mpi_execute_dft_c2r(irfftn, reinterpret_cast<fftw_complex*>(dW.data()), W.data());
+    for (int k=0; k<U.size(); k++)
+    {
+      U[k] /= tot;
+      V[k] /= tot;
+      W[k] /= tot;
+    }
+
     if (tstep % 2 == 0)
     {
         s_in[0] = 0.0;
-- 
2.43.0


From ee300b136b1f8fda7e3260184093ccbd9551dd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:27 +0000
Subject: [PATCH 24/27] fix: statistics of the channel demos assumed one slab
 of 2^M planes per process

Averages were written to the wrong points, or not summed over the processes that share
a plane, with uneven slabs, pencils or mesh sizes given by N.
---
 demo/MKM.py            | 22 ++++++++++++----------
 demo/RayleighBenard.py | 25 +++++++++++++------------
 2 files changed, 25 insertions(+), 22 deletions(-)

diff --git a/demo/MKM.py b/demo/MKM.py
index deae01d..a1cef2c 100644
--- a/demo/MKM.py
+++ b/demo/MKM.py
@@ -178,6 +178,9 @@ class Stats(object):
 
     def __init__(self, U, comm, fromstats="", filename=""):
         self.shape = U.shape[1:]
+        # Wall normal points of this process, shared (pencil) with those of plane
+        self.s = U.function_space().local_slice(False)[-3]
+        self.plane = comm.Split(self.s.start)
         self.Umean = np.zeros(U.shape[:2])
         self.Pmean = np.zeros(U.shape[1])
         self.UU = np.zeros((6, U.shape[1]))
@@ -194,10 +197,10 @@ class Stats(object):
         self.f0.create_group("Average")
         self.f0.create_group("Reynolds Stress")
         for i in ("U", "V", "W", "P"):
-            self.f0["Average"].create_dataset(i, shape=(2**config.params.M[0],), dtype=float)
+            self.f0["Average"].create_dataset(i, shape=(config.params.N[0],), dtype=float)
 
         for i in ("UU", "VV", "WW", "UV", "UW", "VW"):
-            self.f0["Reynolds Stress"].create_dataset(i, shape=(2**config.params.M[0], ), dtype=float)
+            self.f0["Reynolds Stress"].create_dataset(i, shape=(config.params.N[0],), dtype=float)
 
     def __call__(self, U, P=None):
         self.num_samples += 1
@@ -213,9 +216,9 @@ class Stats(object):
         self.get_stats()
 
     def get_stats(self, tofile=True):
-        N = self.shape[0]
-        s = slice(self.rank*N, (self.rank+1)*N, 1)
-        Nd = self.num_samples*self.shape[1]*self.shape[2]
+        s = self.s
+        Nd = self.num_samples*config.params.N[1]*config.params.N[2]
+        total = self.plane.allreduce
         self.comm.barrier()
         if tofile:
             if self.f0 is None:
@@ -224,10 +227,10 @@ class Stats(object):
                 self.f0 = h5py.File(self.fname+".h5", "a", driver="mpio", comm=self.comm)
 
             for i, name in enumerate(("U", "V", "W")):
-                self.f0["Average/"+name][s] = self.Umean[i]/Nd
-            self.f0["Average/P"][s] = self.Pmean/Nd
+                self.f0["Average/"+name][s] = total(self.Umean[i])/Nd
+            self.f0["Average/P"][s] = total(self.Pmean)/Nd
             for i, name in enumerate(("UU", "VV", "WW", "UV", "UW", "VW")):
-                self.f0["Reynolds Stress/"+name][s] = self.UU[i]/Nd
+                self.f0["Reynolds Stress/"+name][s] = total(self.UU[i])/Nd
             self.f0.attrs.create("num_samples", self.num_samples)
             self.f0.close()
 
@@ -244,10 +247,9 @@ class Stats(object):
     def fromfile(self, filename="stats"):
         self.fname = filename
         self.f0 = h5py.File(filename+".h5", "a", driver="mpio", comm=self.comm)
-        N = self.shape[0]
         self.num_samples = self.f0.attrs["num_samples"]
         Nd = self.num_samples*self.shape[1]*self.shape[2]
-        s = slice(self.rank*N, (self.rank+1)*N, 1)
+        s = self.s
         for i, name in enumerate(("U", "V", "W")):
             self.Umean[i, :] = self.f0["Average/"+name][s]*Nd
         self.Pmean[:] = self.f0["Average/P"][s]*Nd
diff --git a/demo/RayleighBenard.py b/demo/RayleighBenard.py
index d8e8587..d4be4a0 100644
--- a/demo/RayleighBenard.py
+++ b/demo/RayleighBenard.py
@@ -90,6 +90,9 @@ class Stats(object):
 
     def __init__(self, U, comm, fromstats="", filename=""):
         self.shape = U.shape[1:]
+        # Wall normal points of this process, shared (pencil) with those of plane
+        self.s = U.function_space().local_slice(False)[-3]
+        self.plane = comm.Split(self.s.start)
         self.Umean = np.zeros(U.shape[:2])
         self.Pmean = np.zeros(U.shape[1])
         self.phim = np.zeros(U.shape[1])
@@ -109,10 +112,10 @@ class Stats(object):
         self.f0.create_group("Average")
         self.f0.create_group("Reynolds Stress")
         for i in ("U", "V", "W", "phi"):
-            self.f0["Average"].create_dataset(i, shape=(2**config.params.M[0],), dtype=float)
+            self.f0["Average"].create_dataset(i, shape=(config.params.N[0],), dtype=float)
 
         for i in ("UU", "VV", "WW", "UV", "UW", "VW", "pp"):
-            self.f0["Reynolds Stress"].create_dataset(i, shape=(2**config.params.M[0], ), dtype=float)
+            self.f0["Reynolds Stress"].create_dataset(i, shape=(config.params.N[0],), dtype=float)
 
     def __call__(self, U, phi):
         self.num_samples += 1
@@ -129,9 +132,9 @@ class Stats(object):
 
     def get_stats(self, tofile=True):
         import h5py
-        N = self.shape[0]
-        s = slice(self.rank*N, (self.rank+1)*N, 1)
-        Nd = self.num_samples*self.shape[1]*self.shape[2]
+        s = self.s
+        Nd = self.num_samples*config.params.N[1]*config.params.N[2]
+        total = self.plane.allreduce
         self.comm.barrier()
         if tofile:
             if self.f0 is None:
@@ -140,11 +143,11 @@ class Stats(object):
                 self.f0 = h5py.File(self.fname+".h5", "a", driver="mpio", comm=comm)
 
             for i, name in enumerate(("U", "V", "W")):
-                self.f0["Average/"+name][s] = self.Umean[i]/Nd
-            self.f0["Average/phi"][s] = self.phim/Nd
+                self.f0["Average/"+name][s] = total(self.Umean[i])/Nd
+            self.f0["Average/phi"][s] = total(self.phim)/Nd
             for i, name in enumerate(("UU", "VV", "WW", "UV", "UW", "VW")):
-                self.f0["Reynolds Stress/"+name][s] = self.UU[i]/Nd
-            self.f0["Reynolds Stress/pp"][s] = self.pp/Nd
+                self.f0["Reynolds Stress/"+name][s] = total(self.UU[i])/Nd
+            self.f0["Reynolds Stress/pp"][s] = total(self.pp)/Nd
             self.f0.attrs.create("num_samples", self.num_samples)
             self.f0.close()
 
@@ -163,11 +166,9 @@ class Stats(object):
         import h5py
         self.fname = filename
         self.f0 = h5py.File(filename+".h5", "a", driver="mpio", comm=comm)
-        N = self.shape[0]
         self.num_samples = self.f0.attrs["num_samples"]
         Nd = self.num_samples*self.shape[1]*self.shape[2]
-        #s = self.T.local_slice(False)[self.axis+1]
-        s = slice(self.rank*N, (self.rank+1)*N, 1)
+        s = self.s
         for i, name in enumerate(("U", "V", "W")):
             self.Umean[i, :] = self.f0["Average/"+name][s]*Nd
         self.phim[:] = self.f0["Average/phi"][s]*Nd
-- 
2.43.0


From c58450f29bf93623ce46acfe7e0377e00cc870c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:28 +0000
Subject: [PATCH 25/27] fix: continuing the channel demos from a checkpoint
 lost the convection history

MKM computed the previous convection with a stale wall-normal vorticity and, as RayleighBenard, took the
previous velocity for the current one; RayleighBenard also set the step counter to the time and lost the previous temperature.
---
 demo/MKM.py            | 6 ++++--
 demo/RayleighBenard.py | 8 +++++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/demo/MKM.py b/demo/MKM.py
index a1cef2c..5a96c4d 100644
--- a/demo/MKM.py
+++ b/demo/MKM.py
@@ -270,12 +270,14 @@ def init_from_file(filename, solver, context):
         U_hat[:] = f["U/3D/1"][su]
 
         # Set g, which is used in computing convection
-        #context.g[:] = 1j*context.K[1]*U_hat[2] - 1j*context.K[2]*U_hat[1]
-        context.U_hat0[:] = U_hat
+        if hasattr(context, 'g'):
+            context.g[:] = 1j*context.K[1]*U_hat[2] - 1j*context.K[2]*U_hat[1]
         context.H_hat1[:] = solver.get_convection(**context)
 
     # current timestep
     U_hat[:] = f["U/3D/0"][su]
+    if 'RK3' not in config.params.solver:
+        context.U_hat0[:] = U_hat
     if hasattr(context, 'g'):
         context.g[:] = 1j*context.K[1]*U_hat[2] - 1j*context.K[2]*U_hat[1]
     f.close()
diff --git a/demo/RayleighBenard.py b/demo/RayleighBenard.py
index d4be4a0..b187f19 100644
--- a/demo/RayleighBenard.py
+++ b/demo/RayleighBenard.py
@@ -195,19 +195,21 @@ def init_from_file(filename, solver, context):
 
         # Set g, which is used in computing convection
         context.g[:] = 1j*context.K[1]*U_hat[2] - 1j*context.K[2]*U_hat[1]
-        context.U_hat0[:] = U_hat
         context.H_hat1[:] = solver.get_convection(**context)
-        context.phi_hat0[:] = f["phi/3D/1"][sp]
+        context.phi_hat1[:] = f["phi/3D/1"][sp]
 
     # current timestep
     U_hat[:] = f["U/3D/0"][su]
     phi_hat[:] = f["phi/3D/0"][sp]
+    if not 'RK3' in config.params.solver:
+        context.U_hat0[:] = U_hat
+        context.phi_hat0[:] = phi_hat
     context.g[:] = 1j*context.K[1]*U_hat[2] - 1j*context.K[2]*U_hat[1]
     context.hdf5file.filename = filename
     if 'tstep' in f.attrs:
         config.params.tstep = f.attrs['tstep']
     if 't' in f.attrs:
-        config.params.tstep = f.attrs['t']
+        config.params.t = f.attrs['t']
     f.close()
 
 if __name__ == "__main__":
-- 
2.43.0


From c0fa3ae85e52431dd11d41f9023de21fe617c92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:28 +0000
Subject: [PATCH 26/27] fix: initial field of the isotropic demo was NaN with
 the vorticity solver

get_velocity of that solver takes the velocity from the vorticity, which is not set yet.
---
 demo/Isotropic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demo/Isotropic.py b/demo/Isotropic.py
index ec2ecb8..32cbc41 100644
--- a/demo/Isotropic.py
+++ b/demo/Isotropic.py
@@ -53,7 +53,7 @@ def initialize(solver, context):
     c.mask = c.T.get_mask_nyquist()
     c.T.mask_nyquist(c.U_hat, c.mask)
 
-    solver.get_velocity(**c)
+    c.U = c.U_hat.backward(c.U)
     U_hat = solver.set_velocity(**c)
 
     K = c.K
-- 
2.43.0


From fc6035247b2e29544e73973edf4bdb396b50fd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:43 +0000
Subject: [PATCH 27/27] fix: asking for convection between steps replaced the
 history of the two-step channel solvers

---
 spectralDNS/solvers/Coupled.py | 3 ++-
 spectralDNS/solvers/KMM.py     | 3 ++-
 spectralDNS/solvers/KMM_RB.py  | 3 ++-
 spectralDNS/solvers/KMMr.py    | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/spectralDNS/solvers/Coupled.py b/spectralDNS/solvers/Coupled.py
index d968b25..9a7e234 100644
--- a/spectralDNS/solvers/Coupled.py
+++ b/spectralDNS/solvers/Coupled.py
@@ -135,7 +135,6 @@ def end_of_tstep(context):
     solvers to modify the time stepsize. Used here to rotate solutions.
     """
     context.UP_hat0[:] = context.UP_hat
-    context.H_hat1[:] = context.H_hat
     return False
 
 def get_velocity(U, U_hat, **context):
@@ -334,6 +333,8 @@ def integrate(up_hat, rhs, dt, solver, context):
     if rank == 0:
         u_hat[0, :, 0, 0] = 0
 
+    # Convection of this step. From here on H_hat may be used by get_convection
+    context.H_hat1[:] = context.H_hat
     return up_hat, dt, dt
 
 def getintegrator(rhs, u0, solver, context):
diff --git a/spectralDNS/solvers/KMM.py b/spectralDNS/solvers/KMM.py
index f36cd0b..f4b38fe 100644
--- a/spectralDNS/solvers/KMM.py
+++ b/spectralDNS/solvers/KMM.py
@@ -151,7 +151,6 @@ def end_of_tstep(context):
     solvers to modify the time stepsize. Used here to rotate solutions.
     """
     context.U_hat0[:] = context.U_hat
-    context.H_hat1[:] = context.H_hat
     return False
 
 def get_velocity(U, U_hat, VFS, **context):
@@ -529,6 +528,8 @@ def integrate(u_hat, g_hat, rhs, dt, solver, context):
     rhs[:] = 0
     rhs = solver.ComputeRHS(rhs, u_hat, g_hat, solver, **context)
     u_hat, g_hat = solver.solve_linear(u_hat, g_hat, rhs, **context)
+    # Convection of this step. From here on H_hat may be used by get_convection
+    context.H_hat1[:] = context.H_hat
     return (u_hat, g_hat), dt, dt
 
 def getintegrator(rhs, u0, solver, context):
diff --git a/spectralDNS/solvers/KMM_RB.py b/spectralDNS/solvers/KMM_RB.py
index d292ac7..0e480c7 100644
--- a/spectralDNS/solvers/KMM_RB.py
+++ b/spectralDNS/solvers/KMM_RB.py
@@ -64,7 +64,6 @@ def end_of_tstep(context):
     context.phi_hat1[:] = context.phi_hat0
     context.phi_hat0[:] = context.phi_hat
     context.U_hat0[:] = context.U_hat
-    context.H_hat1[:] = context.H_hat
     context.N_hat0[:] = context.N_hat
     return False
 
@@ -158,6 +157,8 @@ def integrate(u_hat, g_hat, p_hat, rhs, dt, solver, context):
     rhs[:] = 0
     rhs = solver.ComputeRHS(rhs, u_hat, g_hat, p_hat, solver, context)
     u_hat, g_hat, p_hat = solver.solve_linear(u_hat, g_hat, p_hat, rhs, context)
+    # Convection of this step. From here on H_hat may be used by get_convection
+    context.H_hat1[:] = context.H_hat
     return (u_hat, g_hat, p_hat), dt, dt
 
 def getintegrator(rhs, u0, solver, context):
diff --git a/spectralDNS/solvers/KMMr.py b/spectralDNS/solvers/KMMr.py
index 37c8ec4..1ca4d06 100644
--- a/spectralDNS/solvers/KMMr.py
+++ b/spectralDNS/solvers/KMMr.py
@@ -153,7 +153,6 @@ def end_of_tstep(context):
     solvers to modify the time stepsize. Used here to rotate solutions.
     """
     context.U_hat0[:] = context.U_hat
-    context.H_hat1[:] = context.H_hat
     return False
 
 def get_velocity(U, U_hat, VFS, **context):
@@ -511,6 +510,8 @@ def integrate(u_hat, g_hat, rhs, dt, solver, context):
     rhs[:] = 0
     rhs = solver.ComputeRHS(rhs, u_hat, g_hat, solver, **context)
     u_hat, g_hat = solver.solve_linear(u_hat, g_hat, rhs, **context)
+    # Convection of this step. From here on H_hat may be used by get_convection
+    context.H_hat1[:] = context.H_hat
     return (u_hat, g_hat), dt, dt
 
 def getintegrator(rhs, u0, solver, context):
-- 
2.43.0

