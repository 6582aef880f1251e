From c1098979cfa7e7ad2edfdd63a7d188a3697e10cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:47 +0000
Subject: [PATCH 01/24] fix: keep events passed to a solve out of later solves

solve() appended the caller's events to the model's own event list, so they
stayed active in every later solve.
---
 ibl/ibl_method.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ibl/ibl_method.py b/ibl/ibl_method.py
index 4033a83..2a527c2 100644
--- a/ibl/ibl_method.py
+++ b/ibl/ibl_method.py
@@ -556,7 +556,7 @@ class IBLMethod(ABC):
             atol = atol_set
 
         # setup the ODE solver
-        kill_events = self._kill_events
+        kill_events = list(self._kill_events)
 
         if isinstance(term_event, list):
             kill_events += term_event
-- 
2.43.0


From e52e6e5c13230198218bdaa329925d55a751222d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:47 +0000
Subject: [PATCH 02/24] fix: drop the old solution when a solve raises

A solve that raised left the previous solution in place, so queries kept
answering with results that do not belong to the current configuration.
---
 ibl/ibl_method.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ibl/ibl_method.py b/ibl/ibl_method.py
index 2a527c2..b4f6fac 100644
--- a/ibl/ibl_method.py
+++ b/ibl/ibl_method.py
@@ -542,6 +542,9 @@ class IBLMethod(ABC):
         TypeError
             When solution parameters have not been set.
         """
+        # a solution from an earlier solve does not survive a failing solve
+        self._solution = None
+
         # setup the initial conditions
         self._ic.nu = self._nu
         self._ic.du_e = float(self.du_e(x0))
@@ -568,7 +571,6 @@ class IBLMethod(ABC):
                         rtol=rtol, atol=atol)
 
         # if completed gather info
-        self._solution = None
         x_end = x0
         f_end = y0
         status = TermReason.UNKNOWN
-- 
2.43.0


From a65a9b374e30907e6702eb32dead302c6fb05337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:47 +0000
Subject: [PATCH 03/24] fix: only report terminal events as the reason for
 termination

An event with terminal set to False does not end the integration, but was
reported as the reason when listed before the event that did.
---
 ibl/ibl_method.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ibl/ibl_method.py b/ibl/ibl_method.py
index b4f6fac..d35475b 100644
--- a/ibl/ibl_method.py
+++ b/ibl/ibl_method.py
@@ -587,7 +587,8 @@ class IBLMethod(ABC):
             elif rtn.status == 1:
                 message = "Event not found."
                 for i, xe in enumerate(rtn.t_events):
-                    if xe.shape[0] > 0:
+                    if xe.shape[0] > 0 and getattr(kill_events[i], "terminal",
+                                                   False):
                         x_end = xe[0]
                         f_end = rtn.sol(x_end)
                         status, message = kill_events[i].event_info()
-- 
2.43.0


From 7411eed6a883fccc5940c80b5e0a18a16059d6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:10 +0000
Subject: [PATCH 04/24] fix: refuse a second derivative of the edge velocity
 that is not callable

The check tested the first derivative again.
---
 ibl/ibl_method.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ibl/ibl_method.py b/ibl/ibl_method.py
index d35475b..7b4602d 100644
--- a/ibl/ibl_method.py
+++ b/ibl/ibl_method.py
@@ -463,9 +463,9 @@ class IBLMethod(ABC):
 
                         self._d2u_e = d2u_e_fun
                 else:
-                    if not callable(du_e):
+                    if not callable(d2u_e):
                         raise ValueError("Must pass in callable object for "
-                                         "first derivative if callable u_e "
+                                         "second derivative if callable u_e "
                                          "given")
 
                     self._d2u_e = d2u_e
-- 
2.43.0


From 696e9a01b4a65b2951207c87bfa481a8f453c8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:10 +0000
Subject: [PATCH 05/24] fix: leave the edge velocity unchanged when a
 specification is refused

set_velocity() stored the new velocity before it checked the derivatives, so a
refused call left the new velocity with the old derivatives.
---
 ibl/ibl_method.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/ibl/ibl_method.py b/ibl/ibl_method.py
index 7b4602d..09b74a2 100644
--- a/ibl/ibl_method.py
+++ b/ibl/ibl_method.py
@@ -416,14 +416,21 @@ class IBLMethod(ABC):
 
         # check if U_e is callable
         if callable(u_e):
-            self._u_e = u_e
-
-            # if dU_edx not provided then use finite differences
+            # check everything before changing anything
             if du_e is None:
                 if d2u_e is not None:
                     raise ValueError("Can only pass second derivative if "
                                      + "first derivative was specified")
+            elif not callable(du_e):
+                raise ValueError("Must pass in callable object for first "
+                                 "derivative if callable u_e given")
+            elif (d2u_e is not None) and (not callable(d2u_e)):
+                raise ValueError("Must pass in callable object for second "
+                                 "derivative if callable u_e given")
+            self._u_e = u_e
 
+            # if dU_edx not provided then use finite differences
+            if du_e is None:
                 # if U_e has derivative method then use it
                 if (hasattr(u_e, "derivative")
                         and callable(getattr(u_e, "derivative"))):
@@ -444,9 +451,6 @@ class IBLMethod(ABC):
                     self._du_e = du_e_fun
                     self._d2u_e = d2u_e_fun
             else:
-                if not callable(du_e):
-                    raise ValueError("Must pass in callable object for first "
-                                     "derivative if callable u_e given")
                 self._du_e = du_e
 
                 # if d2U_edx2 not provied then use finite difference
@@ -463,11 +467,6 @@ class IBLMethod(ABC):
 
                         self._d2u_e = d2u_e_fun
                 else:
-                    if not callable(d2u_e):
-                        raise ValueError("Must pass in callable object for "
-                                         "second derivative if callable u_e "
-                                         "given")
-
                     self._d2u_e = d2u_e
         elif isinstance(u_e, (int, float)):
             # if is 2-tuple then assume x, dU_edx pairs to build spline
-- 
2.43.0


From 273e7705cea2bc801a591782c4623c0c5ab8e510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:43 +0000
Subject: [PATCH 06/24] fix: refuse malformed edge velocity points with
 ValueError

A scalar velocity without sampled derivatives, a velocity that is not sized and
zero-dimensional points escaped as TypeError or IndexError, and
multi-dimensional derivative samples were accepted.
---
 ibl/ibl_method.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ibl/ibl_method.py b/ibl/ibl_method.py
index 09b74a2..27050fa 100644
--- a/ibl/ibl_method.py
+++ b/ibl/ibl_method.py
@@ -470,9 +470,15 @@ class IBLMethod(ABC):
                     self._d2u_e = d2u_e
         elif isinstance(u_e, (int, float)):
             # if is 2-tuple then assume x, dU_edx pairs to build spline
-            if len(du_e) == 2:
+            if hasattr(du_e, "__len__") and len(du_e) == 2:
                 x_pts = np.asarray(du_e[0])
                 du_e_pts = np.asarray(du_e[1])
+                if x_pts.ndim != 1:
+                    raise ValueError("First element of du_e 2-tuple must be "
+                                     + "1D vector of distances")
+                if du_e_pts.ndim != 1:
+                    raise ValueError("Second element of du_e 2-tuple must be "
+                                     + "1D vector of velocity derivatives")
                 pchip = PchipInterpolator(x_pts, du_e_pts)
                 self._du_e = pchip
                 pchipa = pchip.antiderivative()
@@ -485,10 +491,9 @@ class IBLMethod(ABC):
                                  + "initialize velocity derivative")
         else:
             # if is 2-tuple then assume x, U_e pairs to build spline
-            if len(u_e) == 2:
+            if hasattr(u_e, "__len__") and len(u_e) == 2:
                 x_pts = np.asarray(u_e[0])
                 u_e_pts = np.asarray(u_e[1])
-                npts = x_pts.shape[0]
                 # check to make sure have two vectors of same length suitable
                 #   for building splines
                 if x_pts.ndim != 1:
@@ -497,6 +502,7 @@ class IBLMethod(ABC):
                 if u_e_pts.ndim != 1:
                     raise ValueError("Second element of u_e 2-tuple must be "
                                      + "1D vector of Velocities")
+                npts = x_pts.shape[0]
                 if npts != u_e_pts.shape[0]:
                     raise ValueError("Vectors in u_e 2-tuple must be of same "
                                      + "length")
-- 
2.43.0


From b2916824286416716ea8cf477de9d21d57ef2428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:43 +0000
Subject: [PATCH 07/24] fix: copy the points the edge velocity is sampled at

The interpolant kept a reference to the caller's array of locations, so editing
that array later changed the model.
---
 ibl/ibl_method.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ibl/ibl_method.py b/ibl/ibl_method.py
index 27050fa..7493345 100644
--- a/ibl/ibl_method.py
+++ b/ibl/ibl_method.py
@@ -471,8 +471,8 @@ class IBLMethod(ABC):
         elif isinstance(u_e, (int, float)):
             # if is 2-tuple then assume x, dU_edx pairs to build spline
             if hasattr(du_e, "__len__") and len(du_e) == 2:
-                x_pts = np.asarray(du_e[0])
-                du_e_pts = np.asarray(du_e[1])
+                x_pts = np.array(du_e[0])
+                du_e_pts = np.array(du_e[1])
                 if x_pts.ndim != 1:
                     raise ValueError("First element of du_e 2-tuple must be "
                                      + "1D vector of distances")
@@ -492,8 +492,8 @@ class IBLMethod(ABC):
         else:
             # if is 2-tuple then assume x, U_e pairs to build spline
             if hasattr(u_e, "__len__") and len(u_e) == 2:
-                x_pts = np.asarray(u_e[0])
-                u_e_pts = np.asarray(u_e[1])
+                x_pts = np.array(u_e[0])
+                u_e_pts = np.array(u_e[1])
                 # check to make sure have two vectors of same length suitable
                 #   for building splines
                 if x_pts.ndim != 1:
-- 
2.43.0


From 3ca7f49e71582d21f71e13953da30d7a0651c80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:43 +0000
Subject: [PATCH 08/24] fix: return a scalar from the laminar separation event

The event returned an array of one element, and the integrator failed with an
inhomogeneous shape as soon as a user event returned a float.
---
 ibl/thwaites_method.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ibl/thwaites_method.py b/ibl/thwaites_method.py
index ce12a2b..2475d78 100644
--- a/ibl/thwaites_method.py
+++ b/ibl/thwaites_method.py
@@ -732,7 +732,7 @@ class _ThwaitesSeparationEvent(TermEvent):
         float
             Current value of the shear function.
         """
-        return self._shear_fun(self._calc_lam(x, f))
+        return float(self._shear_fun(self._calc_lam(x, f[0])))
 
     @override
     def event_info(self) -> Tuple[TermReason, str]:
-- 
2.43.0


From d136272821b3b44bda3838f20fe94560460932b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:43 +0000
Subject: [PATCH 09/24] fix: limit lambda on both sides in the same array

Values above the range were left alone when another element was below it.
---
 ibl/thwaites_method.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ibl/thwaites_method.py b/ibl/thwaites_method.py
index 2475d78..6b09870 100644
--- a/ibl/thwaites_method.py
+++ b/ibl/thwaites_method.py
@@ -544,7 +544,7 @@ class _ThwaitesFunctions:
             lam_local[lam_local < lam_min] = lam_min
 #            raise ValueError("Cannot pass value less than {} into this "
 #                             "function: {}".format(lam_min, lam))
-        elif (lam_local > lam_max).any():
+        if (lam_local > lam_max).any():
             lam_local[lam_local > lam_max] = lam_max
 #            raise ValueError("Cannot pass value greater than {} into this "
 #                             "function: {}".format(lam_max, lam))
-- 
2.43.0


From 84d7d708a9b9c5ba61e5abaf6ab997d06ad0bfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:43 +0000
Subject: [PATCH 10/24] fix: limit edge velocity and shape factor without
 writing to arrays

Head's method wrote the limited edge velocity into the array returned by the
caller's function (and so possibly into the caller's locations), could not
evaluate the wall shear at a scalar location, and limited scalars and arrays
differently.
---
 ibl/head_method.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/ibl/head_method.py b/ibl/head_method.py
index ea12662..0a57d27 100644
--- a/ibl/head_method.py
+++ b/ibl/head_method.py
@@ -219,8 +219,8 @@ class HeadMethod(IBLMethod):
 
         delta_m = self._solution(x)[0]
         shape_d = self._solution(x)[1]
-        u_e = self.u_e(x)
-        u_e[np.abs(u_e) < 0.001] = 0.001
+        u_e = np.asarray(self.u_e(x), float)
+        u_e = np.maximum(u_e, 0.001)
         re_delta_m = u_e*delta_m/self._nu
         c_f = c_f_fun(re_delta_m, shape_d)
         return 0.5*rho*u_e**2*c_f
@@ -279,14 +279,9 @@ class HeadMethod(IBLMethod):
         """
         f_p = np.zeros_like(f)
         delta_m = f[0]
-        shape_d = np.asarray(f[1])
-        if (shape_d < 1.11).any():
-            shape_d[shape_d < 1.11] = 1.11
-        u_e = self.u_e(x)
-        if isinstance(u_e, float):
-            u_e = max(u_e, 0.001)
-        else:
-            u_e[np.abs(u_e) < 0.001] = 0.001
+        shape_d = np.maximum(f[1], 1.11)
+        u_e = np.asarray(self.u_e(x), float)
+        u_e = np.maximum(u_e, 0.001)
         du_e = self.du_e(x)
         re_delta_m = u_e*delta_m/self._nu
         c_f = c_f_fun(re_delta_m, shape_d)
-- 
2.43.0


From b6be8d170ade176d523dfe5c493c7f5135a1c7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:09 +0000
Subject: [PATCH 11/24] fix: locate laminar separation where the shear first
 vanishes

The shear of the Spline and White fits is limited to zero below the table end,
so the separation event never changed sign and separation was reported at the
end of the integrator step instead of where the shear vanishes.
---
 ibl/thwaites_method.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/ibl/thwaites_method.py b/ibl/thwaites_method.py
index 6b09870..a1211b8 100644
--- a/ibl/thwaites_method.py
+++ b/ibl/thwaites_method.py
@@ -159,7 +159,8 @@ class ThwaitesMethod(IBLMethod):
                 raise ValueError("Need to pass a 2-tuple for fit functions")
 
         self._set_kill_event(_ThwaitesSeparationEvent(self._calc_lambda,
-                                                      self._model.shear))
+                                                      self._model.shear,
+                                                      self._model.range()[0]))
 
     @override
     def v_e(self, x: InputParam) -> npt.NDArray:
@@ -707,10 +708,13 @@ class _ThwaitesSeparationEvent(TermEvent):
     # ----------
     #    _calc_lam: Callable that can calculate lambda.
     #    _S_fun: Callable that can calculate the shear function.
-    def __init__(self, calc_lam: Callable, shear_fun: Callable) -> None:
+    #    _lambda_min: Value of lambda below which the shear function is limited.
+    def __init__(self, calc_lam: Callable, shear_fun: Callable,
+                 lambda_min: float = -np.inf) -> None:
         super().__init__()
         self._calc_lam = calc_lam
         self._shear_fun = shear_fun
+        self._lambda_min = lambda_min
 
     @override
     def _call_impl(self, x: float, f: npt.NDArray) -> float:
@@ -732,7 +736,13 @@ class _ThwaitesSeparationEvent(TermEvent):
         float
             Current value of the shear function.
         """
-        return float(self._shear_fun(self._calc_lam(x, f[0])))
+        lam = float(self._calc_lam(x, f[0]))
+        shear = float(self._shear_fun(lam))
+        if (shear <= 0) and (lam < self._lambda_min):
+            # shear is limited to its end value here, so need the distance to
+            # the end of the range to be able to locate the change of sign
+            return shear + (lam - self._lambda_min)
+        return shear
 
     @override
     def event_info(self) -> Tuple[TermReason, str]:
-- 
2.43.0


From 99b56fd6110b8431099f38c9f114525e64778272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:29 +0000
Subject: [PATCH 12/24] fix: keep the similarity solution unchanged when a
 reset is refused

A refused wedge parameter or solution parameter left the new wedge parameter, or
a new profile with the old thicknesses, in the object.
---
 ibl/analytic/_analytic_2d_base.py | 20 +++++++++++++++++++-
 ibl/analytic/_falkner_skan.py     |  7 ++++++-
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/ibl/analytic/_analytic_2d_base.py b/ibl/analytic/_analytic_2d_base.py
index 8fe4579..e7164fa 100644
--- a/ibl/analytic/_analytic_2d_base.py
+++ b/ibl/analytic/_analytic_2d_base.py
@@ -462,8 +462,26 @@ class Analytic2dSimilarityIncompressible(ABC):
             raise ValueError("Invalid solution initial condition value: "
                              + f"{fw_pp}")
 
-        self._calculate_solution(fw_pp=fw_pp, eta_inf=eta_inf)
+        # either everything is set or everything stays as it was
+        previous = (self._f, self._eta_inf, self._eta_d, self._eta_m,
+                    self._eta_k, self._eta_s)
+        try:
+            self._calculate_solution(fw_pp=fw_pp, eta_inf=eta_inf)
+            self._calculate_thicknesses()
+        except Exception:
+            (self._f, self._eta_inf, self._eta_d, self._eta_m,
+             self._eta_k, self._eta_s) = previous
+            raise
 
+    def _calculate_thicknesses(self) -> None:
+        """
+        Find the thicknesses in similarity coordinates from the solution.
+
+        Raises
+        ------
+        ValueError
+            If shear thickness cannot be found.
+        """
         # calculate the invariant thickness now that have solution
         self._eta_d = float(self.eta_inf-self.f(self.eta_inf))
         self._eta_m = (self.fw_pp
diff --git a/ibl/analytic/_falkner_skan.py b/ibl/analytic/_falkner_skan.py
index 071b198..3e13717 100644
--- a/ibl/analytic/_falkner_skan.py
+++ b/ibl/analytic/_falkner_skan.py
@@ -91,9 +91,14 @@ class FalknerSkan(Analytic2dSimilarityIncompressible):
         if (beta < -0.19884) or (beta > 2):
             raise ValueError("Invalid wedge angle parameter: "
                              + f"{beta}")
+        beta_previous = self._beta
         self._beta = beta
 
-        self.set_solution_parameters(fw_pp=fw_pp, eta_inf=eta_inf)
+        try:
+            self.set_solution_parameters(fw_pp=fw_pp, eta_inf=eta_inf)
+        except Exception:
+            self._beta = beta_previous
+            raise
 
     def reset_m(self, m: float, eta_inf: Optional[float] = None,
                 fw_pp: Optional[float] = None) -> None:
-- 
2.43.0


From 34f6297170a46f783e1d700b21fb86a2b07f712e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:29 +0000
Subject: [PATCH 13/24] fix: refuse velocity exponents of -1 and below with
 ValueError

An exponent of -1 escaped as ZeroDivisionError.
---
 ibl/analytic/_falkner_skan.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ibl/analytic/_falkner_skan.py b/ibl/analytic/_falkner_skan.py
index 3e13717..733e715 100644
--- a/ibl/analytic/_falkner_skan.py
+++ b/ibl/analytic/_falkner_skan.py
@@ -126,6 +126,8 @@ class FalknerSkan(Analytic2dSimilarityIncompressible):
         ValueError
             If invalid value is passed in.
         """
+        if m <= -1:
+            raise ValueError(f"Invalid edge velocity profile parameter: {m}")
         if m == np.inf:
             beta = 2.0
         else:
-- 
2.43.0


From 2e41d46d383a7ffed82c50515ddfb78a00d7e16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:56 +0000
Subject: [PATCH 14/24] fix: give each surface its own record of a stagnation
 row

A dump with a row of exactly zero velocity shared one record between both
surfaces, and the arc length adjustment of the second surface was applied to it
twice and refused.
---
 ibl/reference/_xfoil_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ibl/reference/_xfoil_reader.py b/ibl/reference/_xfoil_reader.py
index 2d8eb60..bc75fc8 100644
--- a/ibl/reference/_xfoil_reader.py
+++ b/ibl/reference/_xfoil_reader.py
@@ -200,7 +200,7 @@ class XFoilReader:
         # find stagnation point
         if self._upper[0].u_e_rel == 0:
             stag_s = self._upper[0].s
-            self._lower.insert(0, self._upper[0])
+            self._lower.insert(0, copy.copy(self._upper[0]))
         else:
             # interpolate properties
             up = self._upper[0]
-- 
2.43.0


From 0b6be145cd8cfbed8a6f8f00ea65398eb6656acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:56 +0000
Subject: [PATCH 15/24] fix: report the name of the loaded XFoil file and drop
 partial loads

The file name was never stored, and a malformed row left the rows read before
it in the reader.
---
 ibl/reference/_xfoil_reader.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/ibl/reference/_xfoil_reader.py b/ibl/reference/_xfoil_reader.py
index bc75fc8..3ca2415 100644
--- a/ibl/reference/_xfoil_reader.py
+++ b/ibl/reference/_xfoil_reader.py
@@ -178,6 +178,30 @@ class XFoilReader:
         if filename == "":
             return
 
+        try:
+            self._read_dump(filename)
+        except Exception:
+            # do not keep part of a file
+            self._upper = []
+            self._lower = []
+            self._wake = []
+            raise
+        self._filename = filename
+
+    def _read_dump(self, filename: str) -> None:
+        """
+        Read the airfoil and wake data from the dump file.
+
+        Parameters
+        ----------
+        filename : str
+            Name of file containing data.
+
+        Raises
+        ------
+        ValueError
+            If invalid data is used.
+        """
         # get rows from file
         airfoil_data, wake_data = self._get_dump_data(filename)
 
-- 
2.43.0


From b344167bee70de0c94687f58e2b44ef779bd1632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:56 +0000
Subject: [PATCH 16/24] fix: refuse unknown Stanford cases with ValueError and
 drop partial loads

An unknown case escaped as IndexError and left the name of the previous case
without its data.
---
 ibl/reference/_stanford_1968.py | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/ibl/reference/_stanford_1968.py b/ibl/reference/_stanford_1968.py
index 8655e50..a3ceb93 100644
--- a/ibl/reference/_stanford_1968.py
+++ b/ibl/reference/_stanford_1968.py
@@ -112,12 +112,38 @@ class StanfordOlympics1968:
         self._nu_ref = np.inf
         self._smooth_vel = None
         self._station = []
+        self._case = ""
 
         if case == "":
-            self._case = ""
             return
 
+        try:
+            self._read_case(case)
+        except Exception:
+            # do not keep part of a case
+            self._nu_ref = np.inf
+            self._smooth_vel = None
+            self._station = []
+            raise
+        self._case = case
+
+    def _read_case(self, case: str) -> None:
+        """
+        Read the data for the case from the collection of case files.
+
+        Parameters
+        ----------
+        case : str
+            String representation of four digit case number
+
+        Raises
+        ------
+        ValueError
+            When case is unknown or case file contains invalid data.
+        """
         case_data = self._get_case_data(case_id=case)
+        if not case_data:
+            raise ValueError(f"Unknown case: {case}")
 
         # extract case info
         case_parts = [x.rstrip().lstrip() for x in case_data[0][0].split("=")]
@@ -128,7 +154,6 @@ class StanfordOlympics1968:
         if case_parts[1] != case:
             raise ValueError(f"Case {case} does not match data file case "
                              + f"{case_parts[1]}")
-        self._case = case
         si_unit = case[0] == "1"
 
         nu_parts = [x.rstrip().lstrip() for x in case_data[0][1].split("=")]
-- 
2.43.0


From f0f558a026e2235012ef9b12f6de53895eb4eddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:17 +0000
Subject: [PATCH 17/24] fix: keep the similarity coordinate search off the
 mirrored solution

---
 ibl/analytic/_analytic_2d_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ibl/analytic/_analytic_2d_base.py b/ibl/analytic/_analytic_2d_base.py
index e7164fa..7bc43b3 100644
--- a/ibl/analytic/_analytic_2d_base.py
+++ b/ibl/analytic/_analytic_2d_base.py
@@ -643,7 +643,9 @@ class Analytic2dSimilarityIncompressible(ABC):
                                     /(f2_curr - f2_prev))
                     f2_prev = f2_curr
                     eta_inf_prev = eta_inf_curr
-                    eta_inf_curr = eta_inf_prev + delta_eta_inf
+                    # negative values belong to the mirrored solution
+                    eta_inf_curr = max(eta_inf_prev + delta_eta_inf,
+                                       0.5*eta_inf_prev)
                 j = j + 1
         else:
             eta_inf_curr = eta_inf
-- 
2.43.0


From b46d87d93c346a8f1cdd7bf2e9a14f4e0b348cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:46 +0000
Subject: [PATCH 18/24] fix: do not list a stagnation row at the end of the
 XFoil airfoil twice

---
 ibl/reference/_xfoil_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ibl/reference/_xfoil_reader.py b/ibl/reference/_xfoil_reader.py
index 3ca2415..54fe5c8 100644
--- a/ibl/reference/_xfoil_reader.py
+++ b/ibl/reference/_xfoil_reader.py
@@ -206,7 +206,7 @@ class XFoilReader:
         airfoil_data, wake_data = self._get_dump_data(filename)
 
         # extract the upper airfoil data
-        idx_lower = -1
+        idx_lower = len(airfoil_data)
         for idx, ad in enumerate(airfoil_data):
             new_pt = XFoilAirfoilData(ad)
             if new_pt.u_e_rel < 0:
-- 
2.43.0


From bce53b0303dfc054fbca98a8bc41353875b1b29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:46 +0000
Subject: [PATCH 19/24] fix: keep the stagnation arc length between its two
 XFoil rows

---
 ibl/reference/_xfoil_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ibl/reference/_xfoil_reader.py b/ibl/reference/_xfoil_reader.py
index 54fe5c8..596a4d6 100644
--- a/ibl/reference/_xfoil_reader.py
+++ b/ibl/reference/_xfoil_reader.py
@@ -845,7 +845,7 @@ class XFoilReader:
         stag_pt.u_e_rel = 0.0
         stag_pt.x = np.abs(-frac*lo.x + (1-frac)*up.x)
         stag_pt.u_e_rel = np.abs(-frac*lo.u_e_rel + (1-frac)*up.u_e_rel)
-        stag_pt.s = frac*lo.s + (1-frac)*up.s
+        stag_pt.s = up.s + frac*(lo.s - up.s)
         stag_pt.y = frac*lo.y + (1-frac)*up.y
         stag_pt.delta_d = frac*lo.delta_d + (1-frac)*up.delta_d
         stag_pt.delta_m = frac*lo.delta_m + (1-frac)*up.delta_m
-- 
2.43.0


From 03f099d1242f0357e5f02a140b1663d2626fef8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:30 +0000
Subject: [PATCH 20/24] fix: refuse negative profile samples in Stanford
 station rows

---
 ibl/reference/_stanford_1968_station.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ibl/reference/_stanford_1968_station.py b/ibl/reference/_stanford_1968_station.py
index f1ceaf9..c8f5ab4 100644
--- a/ibl/reference/_stanford_1968_station.py
+++ b/ibl/reference/_stanford_1968_station.py
@@ -712,6 +712,9 @@ class StanfordOlympics1968StationData:
                                  + f"({(self.u_e-u)/self.u_star}) "
                                  + f"for defect velocity sample {i}")
 
+            if min(yplus, uplus, y, u, ycd, udef) < 0:
+                raise ValueError(f"Negative value in sample {i} data: {st}")
+
             # set values
             self.y_plus[i] = yplus
             self.u_plus[i] = uplus
-- 
2.43.0


From 58a9e858639b1a4a4c84482f651a014aa998ab78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:30 +0000
Subject: [PATCH 21/24] fix: refuse incomplete Stanford case files with
 ValueError

---
 ibl/reference/_stanford_1968.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ibl/reference/_stanford_1968.py b/ibl/reference/_stanford_1968.py
index a3ceb93..2df015d 100644
--- a/ibl/reference/_stanford_1968.py
+++ b/ibl/reference/_stanford_1968.py
@@ -144,6 +144,14 @@ class StanfordOlympics1968:
         case_data = self._get_case_data(case_id=case)
         if not case_data:
             raise ValueError(f"Unknown case: {case}")
+        if (len(case_data) < 3) or (len(case_data[0]) < 2):
+            raise ValueError(f"Incomplete data file for case {case}")
+        n_station = len(case_data[1])
+        if (((len(case_data) > 3) and (len(case_data[3]) != n_station))
+                or ((len(case_data) > 4)
+                    and (len(case_data) - 4 != n_station))):
+            raise ValueError("Number of stations differs between parts of "
+                             + f"data file for case {case}")
 
         # extract case info
         case_parts = [x.rstrip().lstrip() for x in case_data[0][0].split("=")]
-- 
2.43.0


From 7af17b52ffd8437439260c34c10b6b86c4e57001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:42 +0000
Subject: [PATCH 22/24] fix: refuse a zero viscosity in Stanford station rows
 with ValueError

---
 ibl/reference/_stanford_1968_station.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ibl/reference/_stanford_1968_station.py b/ibl/reference/_stanford_1968_station.py
index c8f5ab4..51273ae 100644
--- a/ibl/reference/_stanford_1968_station.py
+++ b/ibl/reference/_stanford_1968_station.py
@@ -614,6 +614,8 @@ class StanfordOlympics1968StationData:
                              + "equilibrium shape factor")
 
         # check derived values
+        if v <= 0:
+            raise ValueError(f"Invalid kinematic viscosity: {v}")
         if np.abs(dels - self.shape_d*self.delta_m) >= 5e-3:
             raise ValueError(f"Station summary data ({dels}) does not match "
                              + f"summary data ({self.shape_d*self.delta_m}) "
-- 
2.43.0


From a7988bb671a01a5ec8f443fd62b064db9ea55c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:48 +0000
Subject: [PATCH 23/24] fix: accept every kind of NumPy scalar as the initial
 edge velocity

---
 ibl/ibl_method.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ibl/ibl_method.py b/ibl/ibl_method.py
index 7493345..ab42434 100644
--- a/ibl/ibl_method.py
+++ b/ibl/ibl_method.py
@@ -468,7 +468,7 @@ class IBLMethod(ABC):
                         self._d2u_e = d2u_e_fun
                 else:
                     self._d2u_e = d2u_e
-        elif isinstance(u_e, (int, float)):
+        elif isinstance(u_e, (int, float, np.integer, np.floating)):
             # if is 2-tuple then assume x, dU_edx pairs to build spline
             if hasattr(du_e, "__len__") and len(du_e) == 2:
                 x_pts = np.array(du_e[0])
-- 
2.43.0


From 508ffacd568b47c008be15f87cf99f9278d24e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:12 +0000
Subject: [PATCH 24/24] fix: refuse velocities that cannot be indexed like a
 2-tuple with ValueError

---
 ibl/ibl_method.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ibl/ibl_method.py b/ibl/ibl_method.py
index ab42434..c144c9d 100644
--- a/ibl/ibl_method.py
+++ b/ibl/ibl_method.py
@@ -414,6 +414,14 @@ class IBLMethod(ABC):
                     -2.5*(fun(xo))
                     +4*(fun(xo-dx) + fun(xo+dx))/3)/(dx**2)
 
+        def is_pair(pts: Any) -> bool:
+            """Check whether there are two elements to access by index."""
+            try:
+                _ = pts[0], pts[1]
+                return len(pts) == 2
+            except (TypeError, KeyError, IndexError):
+                return False
+
         # check if U_e is callable
         if callable(u_e):
             # check everything before changing anything
@@ -470,7 +478,7 @@ class IBLMethod(ABC):
                     self._d2u_e = d2u_e
         elif isinstance(u_e, (int, float, np.integer, np.floating)):
             # if is 2-tuple then assume x, dU_edx pairs to build spline
-            if hasattr(du_e, "__len__") and len(du_e) == 2:
+            if is_pair(du_e):
                 x_pts = np.array(du_e[0])
                 du_e_pts = np.array(du_e[1])
                 if x_pts.ndim != 1:
@@ -491,7 +499,7 @@ class IBLMethod(ABC):
                                  + "initialize velocity derivative")
         else:
             # if is 2-tuple then assume x, U_e pairs to build spline
-            if hasattr(u_e, "__len__") and len(u_e) == 2:
+            if is_pair(u_e):
                 x_pts = np.array(u_e[0])
                 u_e_pts = np.array(u_e[1])
                 # check to make sure have two vectors of same length suitable
-- 
2.43.0

