From 2383b834aa9a5f6a5d25a19e643d66a6c3b79f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:33 +0000
Subject: [PATCH 01/22] fix: keep similarity search for eta_inf on the physical
 branch

For wedge parameters of about -0.063 < beta < -0.045 the secant search for
eta_inf stepped to a non-positive or runaway value, and either failed or
converged to the mirror image solution with negative thicknesses.
---
 ibl/analytic/_analytic_2d_base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ibl/analytic/_analytic_2d_base.py b/ibl/analytic/_analytic_2d_base.py
index 8fe4579..55bec96 100644
--- a/ibl/analytic/_analytic_2d_base.py
+++ b/ibl/analytic/_analytic_2d_base.py
@@ -525,6 +525,7 @@ class Analytic2dSimilarityIncompressible(ABC):
             j_max = 100
             i_max = 100
             eta_inf_tol = 1e-8
+            eta_inf_max = 20.0
             fw_pp_tol = 1e-8
 
             def _solve(eta_inf: float, fw_pp: float) -> Tuple[float, float]:
@@ -626,6 +627,11 @@ class Analytic2dSimilarityIncompressible(ABC):
                     f2_prev = f2_curr
                     eta_inf_prev = eta_inf_curr
                     eta_inf_curr = eta_inf_prev + delta_eta_inf
+                    # the secant can overshoot when f2 is nearly stationary
+                    # and either diverge or converge to the mirror image of
+                    # the solution, so keep on the physical side
+                    if not 0.0 < eta_inf_curr <= eta_inf_max:
+                        eta_inf_curr = 2.0*eta_inf_prev
                 j = j + 1
         else:
             eta_inf_curr = eta_inf
-- 
2.43.0


From 3c18c6508cfadea227cd0f2d9b45610729a5148d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:33 +0000
Subject: [PATCH 02/22] fix: restore similarity solution when an update is
 rejected

A rejected or failed reset_beta, reset_m or set_solution_parameters left the
object with the new beta (or eta_inf and thicknesses) and the old solution.
---
 ibl/analytic/_analytic_2d_base.py | 27 +++++++++++++++++++++++++++
 ibl/analytic/_falkner_skan.py     |  7 ++++++-
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/ibl/analytic/_analytic_2d_base.py b/ibl/analytic/_analytic_2d_base.py
index 55bec96..6bb513c 100644
--- a/ibl/analytic/_analytic_2d_base.py
+++ b/ibl/analytic/_analytic_2d_base.py
@@ -462,6 +462,33 @@ class Analytic2dSimilarityIncompressible(ABC):
             raise ValueError("Invalid solution initial condition value: "
                              + f"{fw_pp}")
 
+        # a failed calculation must not leave a partially updated solution
+        previous = (self._f, self._eta_inf, self._eta_d, self._eta_m,
+                    self._eta_k, self._eta_s)
+        try:
+            self._update_solution(fw_pp=fw_pp, eta_inf=eta_inf)
+        except Exception:
+            (self._f, self._eta_inf, self._eta_d, self._eta_m,
+             self._eta_k, self._eta_s) = previous
+            raise
+
+    def _update_solution(self, fw_pp: Optional[float],
+                         eta_inf: Optional[float]) -> None:
+        """
+        Calculate the solution and the associated invariant thicknesses.
+
+        Parameters
+        ----------
+        fw_pp : float | None
+            Second derivative condition for the ODE.
+        eta_inf : float | None
+            Maximum similarity coordinate.
+
+        Raises
+        ------
+        ValueError
+            If solution cannot be found.
+        """
         self._calculate_solution(fw_pp=fw_pp, eta_inf=eta_inf)
 
         # calculate the invariant thickness now that have solution
diff --git a/ibl/analytic/_falkner_skan.py b/ibl/analytic/_falkner_skan.py
index 071b198..3e13717 100644
--- a/ibl/analytic/_falkner_skan.py
+++ b/ibl/analytic/_falkner_skan.py
@@ -91,9 +91,14 @@ class FalknerSkan(Analytic2dSimilarityIncompressible):
         if (beta < -0.19884) or (beta > 2):
             raise ValueError("Invalid wedge angle parameter: "
                              + f"{beta}")
+        beta_previous = self._beta
         self._beta = beta
 
-        self.set_solution_parameters(fw_pp=fw_pp, eta_inf=eta_inf)
+        try:
+            self.set_solution_parameters(fw_pp=fw_pp, eta_inf=eta_inf)
+        except Exception:
+            self._beta = beta_previous
+            raise
 
     def reset_m(self, m: float, eta_inf: Optional[float] = None,
                 fw_pp: Optional[float] = None) -> None:
-- 
2.43.0


From bc7bf58448e6838bc36b8d4d642207f3f6b95cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:33 +0000
Subject: [PATCH 03/22] fix: report m=-1 as an invalid value

reset_m documents ValueError for an invalid m, but m=-1 raised
ZeroDivisionError.
---
 ibl/analytic/_falkner_skan.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ibl/analytic/_falkner_skan.py b/ibl/analytic/_falkner_skan.py
index 3e13717..85e0a22 100644
--- a/ibl/analytic/_falkner_skan.py
+++ b/ibl/analytic/_falkner_skan.py
@@ -126,6 +126,9 @@ class FalknerSkan(Analytic2dSimilarityIncompressible):
         ValueError
             If invalid value is passed in.
         """
+        if m == -1:
+            raise ValueError(f"Invalid edge velocity profile parameter: {m}")
+
         if m == np.inf:
             beta = 2.0
         else:
-- 
2.43.0


From ffcb3fb70a0e3325dfb39837b31dd6fb7c22a682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:33 +0000
Subject: [PATCH 04/22] fix: do not keep user termination events after solve

Events passed to solve were appended to the list of events of the method, so
they also terminated every later solve.
---
 ibl/ibl_method.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ibl/ibl_method.py b/ibl/ibl_method.py
index 4033a83..7daa848 100644
--- a/ibl/ibl_method.py
+++ b/ibl/ibl_method.py
@@ -556,7 +556,7 @@ class IBLMethod(ABC):
             atol = atol_set
 
         # setup the ODE solver
-        kill_events = self._kill_events
+        kill_events = list(self._kill_events)
 
         if isinstance(term_event, list):
             kill_events += term_event
@@ -695,7 +695,7 @@ class IBLMethod(ABC):
         if isinstance(ke, TermEvent):
             self._kill_events = [ke]
         else:
-            self._kill_events = ke
+            self._kill_events = list(ke)
 
     @abstractmethod
     def v_e(self, x: InputParam) -> npt.NDArray:
-- 
2.43.0


From a6d7c974068f981fda30926e45809cabda4fd1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:33 +0000
Subject: [PATCH 05/22] fix: only report terminal events as reason for
 termination

An event that does not terminate the integration, but that occurred before the
one that did, was reported as the reason and location of the termination.
---
 ibl/ibl_method.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ibl/ibl_method.py b/ibl/ibl_method.py
index 7daa848..5b1dfa3 100644
--- a/ibl/ibl_method.py
+++ b/ibl/ibl_method.py
@@ -585,7 +585,7 @@ class IBLMethod(ABC):
             elif rtn.status == 1:
                 message = "Event not found."
                 for i, xe in enumerate(rtn.t_events):
-                    if xe.shape[0] > 0:
+                    if kill_events[i].terminal and xe.shape[0] > 0:
                         x_end = xe[0]
                         f_end = rtn.sol(x_end)
                         status, message = kill_events[i].event_info()
-- 
2.43.0


From 04cde4f8a07838e7ca90914450264a7ef3cd98bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:33 +0000
Subject: [PATCH 06/22] fix: limit both ends of the range of Thwaites data fits

When an array had a value below the range, the values above the range were not
limited, so the fit was extrapolated.
---
 ibl/thwaites_method.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ibl/thwaites_method.py b/ibl/thwaites_method.py
index ce12a2b..2b6515b 100644
--- a/ibl/thwaites_method.py
+++ b/ibl/thwaites_method.py
@@ -544,7 +544,7 @@ class _ThwaitesFunctions:
             lam_local[lam_local < lam_min] = lam_min
 #            raise ValueError("Cannot pass value less than {} into this "
 #                             "function: {}".format(lam_min, lam))
-        elif (lam_local > lam_max).any():
+        if (lam_local > lam_max).any():
             lam_local[lam_local > lam_max] = lam_max
 #            raise ValueError("Cannot pass value greater than {} into this "
 #                             "function: {}".format(lam_max, lam))
-- 
2.43.0


From 3f2540a42727ed5b83d5adedb5003f4ec810ae2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:54 +0000
Subject: [PATCH 07/22] fix: do not modify edge velocity arrays in Head's
 method

The array returned by the edge velocity function was limited in place, so
it could alter data owned by the caller, and scalar locations raised
TypeError when asking for the wall shear stress.
---
 ibl/head_method.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ibl/head_method.py b/ibl/head_method.py
index ea12662..9817401 100644
--- a/ibl/head_method.py
+++ b/ibl/head_method.py
@@ -219,7 +219,7 @@ class HeadMethod(IBLMethod):
 
         delta_m = self._solution(x)[0]
         shape_d = self._solution(x)[1]
-        u_e = self.u_e(x)
+        u_e = np.array(self.u_e(x), dtype=float)
         u_e[np.abs(u_e) < 0.001] = 0.001
         re_delta_m = u_e*delta_m/self._nu
         c_f = c_f_fun(re_delta_m, shape_d)
@@ -286,6 +286,7 @@ class HeadMethod(IBLMethod):
         if isinstance(u_e, float):
             u_e = max(u_e, 0.001)
         else:
+            u_e = np.array(u_e, dtype=float)
             u_e[np.abs(u_e) < 0.001] = 0.001
         du_e = self.du_e(x)
         re_delta_m = u_e*delta_m/self._nu
-- 
2.43.0


From 45db92f20ca121cd26f1d5d80e835af946a5a17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:46 +0000
Subject: [PATCH 08/22] fix: use manually set initial momentum thickness in
 Thwaites' method

The value was silently ignored when the initial condition in use was not a
ManualCondition.
---
 ibl/thwaites_method.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ibl/thwaites_method.py b/ibl/thwaites_method.py
index 2b6515b..153588f 100644
--- a/ibl/thwaites_method.py
+++ b/ibl/thwaites_method.py
@@ -76,6 +76,11 @@ class ThwaitesMethod(IBLMethod):
     def initial_delta_m(self, delta_m0: float) -> None:
         if delta_m0 <= 0:
             raise ValueError(f"Invalid initial momentum thickness: {delta_m0}")
+        if not isinstance(self._ic, ManualCondition):
+            # other initial conditions calculate their momentum thickness
+            self.set_initial_condition(ManualCondition(delta_d=0,
+                                                       delta_m=delta_m0,
+                                                       delta_k=0))
         cast(ManualCondition, self._ic).del_m = delta_m0
 
     def set_data_fits(self, data_fits: _DataFits) -> None:
-- 
2.43.0


From 3418f275da668a7aa580411609ad0dac9feb156a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:06 +0000
Subject: [PATCH 09/22] fix: keep initial shape factor of Head's method when
 setting thickness

The displacement thickness was stored in place of the shape factor, so the
shape factor was lost when set first, changed along with the momentum
thickness, and was ignored for initial conditions that are not manual.
---
 ibl/head_method.py | 50 ++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 48 insertions(+), 2 deletions(-)

diff --git a/ibl/head_method.py b/ibl/head_method.py
index 9817401..c82cde9 100644
--- a/ibl/head_method.py
+++ b/ibl/head_method.py
@@ -15,6 +15,7 @@ from ibl.ibl_method import IBLMethod
 from ibl.ibl_method import TermReason
 from ibl.ibl_method import TermEvent
 from ibl.skin_friction import ludwieg_tillman as c_f_fun
+from ibl.initial_condition import InitialCondition
 from ibl.initial_condition import ManualCondition
 from ibl.typing import InputParam
 
@@ -30,6 +31,8 @@ class HeadMethod(IBLMethod):
     def __init__(self, nu: float = 1.0, U_e: Optional[Any] = None,
                  dU_edx: Optional[Any] = None, d2U_edx2: Optional[Any] = None,
                  shape_d_crit: float = 2.4) -> None:
+        # displacement shape factor set before the momentum thickness is known
+        self._shape_d0: Optional[float] = None
         super().__init__(nu=nu, u_e=U_e, du_e=dU_edx, d2u_e=d2U_edx2,
                          ic=ManualCondition(delta_d=np.inf, delta_m=np.inf,
                                             delta_k=0))
@@ -48,7 +51,11 @@ class HeadMethod(IBLMethod):
     def initial_delta_m(self, delta_m0: float) -> None:
         if delta_m0 <= 0:
             raise ValueError(f"Invalid initial momentum thickness: {delta_m0}")
-        cast(ManualCondition, self._ic).del_m = delta_m0
+        shape_d = self.initial_shape_d
+        ic = self._manual_condition()
+        ic.del_m = delta_m0
+        ic.del_d = shape_d*delta_m0
+        self._shape_d0 = None
 
     @property
     def initial_shape_d(self) -> float:
@@ -56,13 +63,52 @@ class HeadMethod(IBLMethod):
         Dispacement thickness at start of integration.
         Must be greater than zero
         """
+        if self._shape_d0 is not None:
+            return self._shape_d0
         return self._ic.shape_d()
 
     @initial_shape_d.setter
     def initial_shape_d(self, shape_d: float) -> None:
         if shape_d <= 0:
             raise ValueError(f"Invalid displacement shape factor: {shape_d}")
-        cast(ManualCondition, self._ic).del_d = shape_d*self.initial_delta_m
+        ic = self._manual_condition()
+        if np.isfinite(ic.del_m):
+            ic.del_d = shape_d*ic.del_m
+        else:
+            self._shape_d0 = shape_d
+
+    @override
+    def set_initial_condition(self, ic: InitialCondition) -> None:
+        """
+        Set the initial conditions for solver.
+
+        Parameters
+        ----------
+        ic : InitialCondition
+            Desired initial condition.
+        """
+        self._shape_d0 = None
+        super().set_initial_condition(ic)
+
+    def _manual_condition(self) -> ManualCondition:
+        """
+        Return the initial condition that manually set values are stored in.
+
+        Any other initial condition is replaced, since it calculates its own
+        thicknesses, while keeping its displacement shape factor.
+
+        Returns
+        -------
+        ManualCondition
+            Initial condition that will be used by solver.
+        """
+        if not isinstance(self._ic, ManualCondition):
+            shape_d = self._ic.shape_d()
+            self.set_initial_condition(ManualCondition(delta_d=np.inf,
+                                                       delta_m=np.inf,
+                                                       delta_k=0))
+            self._shape_d0 = shape_d
+        return cast(ManualCondition, self._ic)
 
     def set_shape_d_critical(self, shape_d_crit: float) -> None:
         """
-- 
2.43.0


From 32a6c46266d471e99766084bdfbd67d7509ad510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:12 +0000
Subject: [PATCH 10/22] fix: locate laminar separation at the end of the data
 fits

The shear function is constant below the smallest lambda of its data, so
the event was flat and the termination location was that of the end of the
integration step, and Drela's fits never separated.
---
 ibl/thwaites_method.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/ibl/thwaites_method.py b/ibl/thwaites_method.py
index 153588f..c691545 100644
--- a/ibl/thwaites_method.py
+++ b/ibl/thwaites_method.py
@@ -164,7 +164,8 @@ class ThwaitesMethod(IBLMethod):
                 raise ValueError("Need to pass a 2-tuple for fit functions")
 
         self._set_kill_event(_ThwaitesSeparationEvent(self._calc_lambda,
-                                                      self._model.shear))
+                                                      self._model.shear,
+                                                      self._model.range()[0]))
 
     @override
     def v_e(self, x: InputParam) -> npt.NDArray:
@@ -712,17 +713,22 @@ class _ThwaitesSeparationEvent(TermEvent):
     # ----------
     #    _calc_lam: Callable that can calculate lambda.
     #    _S_fun: Callable that can calculate the shear function.
-    def __init__(self, calc_lam: Callable, shear_fun: Callable) -> None:
+    #    _lam_min: Smallest lambda that the shear function represents.
+    def __init__(self, calc_lam: Callable, shear_fun: Callable,
+                 lam_min: float) -> None:
         super().__init__()
         self._calc_lam = calc_lam
         self._shear_fun = shear_fun
+        self._lam_min = lam_min
 
     @override
     def _call_impl(self, x: float, f: npt.NDArray) -> float:
         """
         Help determine if Thwaites method integrator should terminate.
 
-        This will terminate once the shear function goes negative.
+        This will terminate once the shear function goes negative or lambda
+        leaves the range that the shear function represents, since the shear
+        function is constant there and cannot indicate separation.
 
         Parameters
         ----------
@@ -735,9 +741,11 @@ class _ThwaitesSeparationEvent(TermEvent):
         Returns
         -------
         float
-            Current value of the shear function.
+            Current value of the shear function, or the distance beyond the
+            range of the shear function when that is smaller.
         """
-        return self._shear_fun(self._calc_lam(x, f))
+        lam = self._calc_lam(x, f)
+        return np.minimum(self._shear_fun(lam), lam - self._lam_min)
 
     @override
     def event_info(self) -> Tuple[TermReason, str]:
-- 
2.43.0


From 5ece12825f134be820a4c8984ae85bdd6f1ffbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:54 +0000
Subject: [PATCH 11/22] fix: reject invalid edge velocity before changing the
 solver

Invalid combinations raised TypeError, IndexError or ZeroDivisionError
instead of ValueError, a second derivative that cannot be called was
accepted, and rejected values could replace part of the edge velocity.
---
 ibl/ibl_method.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/ibl/ibl_method.py b/ibl/ibl_method.py
index 5b1dfa3..b5be293 100644
--- a/ibl/ibl_method.py
+++ b/ibl/ibl_method.py
@@ -416,14 +416,21 @@ class IBLMethod(ABC):
 
         # check if U_e is callable
         if callable(u_e):
-            self._u_e = u_e
-
-            # if dU_edx not provided then use finite differences
+            # check everything before making any changes
             if du_e is None:
                 if d2u_e is not None:
                     raise ValueError("Can only pass second derivative if "
                                      + "first derivative was specified")
+            elif not callable(du_e):
+                raise ValueError("Must pass in callable object for first "
+                                 "derivative if callable u_e given")
+            elif (d2u_e is not None) and (not callable(d2u_e)):
+                raise ValueError("Must pass in callable object for second "
+                                 "derivative if callable u_e given")
+            self._u_e = u_e
 
+            # if dU_edx not provided then use finite differences
+            if du_e is None:
                 # if U_e has derivative method then use it
                 if (hasattr(u_e, "derivative")
                         and callable(getattr(u_e, "derivative"))):
@@ -444,9 +451,6 @@ class IBLMethod(ABC):
                     self._du_e = du_e_fun
                     self._d2u_e = d2u_e_fun
             else:
-                if not callable(du_e):
-                    raise ValueError("Must pass in callable object for first "
-                                     "derivative if callable u_e given")
                 self._du_e = du_e
 
                 # if d2U_edx2 not provied then use finite difference
@@ -463,17 +467,15 @@ class IBLMethod(ABC):
 
                         self._d2u_e = d2u_e_fun
                 else:
-                    if not callable(du_e):
-                        raise ValueError("Must pass in callable object for "
-                                         "first derivative if callable u_e "
-                                         "given")
-
                     self._d2u_e = d2u_e
-        elif isinstance(u_e, (int, float)):
+        elif isinstance(u_e, (int, float, np.number)):
             # if is 2-tuple then assume x, dU_edx pairs to build spline
-            if len(du_e) == 2:
+            if hasattr(du_e, "__len__") and len(du_e) == 2:
                 x_pts = np.asarray(du_e[0])
                 du_e_pts = np.asarray(du_e[1])
+                if (x_pts.ndim != 1) or (du_e_pts.ndim != 1):
+                    raise ValueError("Elements of du_e 2-tuple must be 1D "
+                                     + "vectors")
                 pchip = PchipInterpolator(x_pts, du_e_pts)
                 self._du_e = pchip
                 pchipa = pchip.antiderivative()
@@ -486,10 +488,9 @@ class IBLMethod(ABC):
                                  + "initialize velocity derivative")
         else:
             # if is 2-tuple then assume x, U_e pairs to build spline
-            if len(u_e) == 2:
+            if hasattr(u_e, "__len__") and len(u_e) == 2:
                 x_pts = np.asarray(u_e[0])
                 u_e_pts = np.asarray(u_e[1])
-                npts = x_pts.shape[0]
                 # check to make sure have two vectors of same length suitable
                 #   for building splines
                 if x_pts.ndim != 1:
@@ -498,6 +499,7 @@ class IBLMethod(ABC):
                 if u_e_pts.ndim != 1:
                     raise ValueError("Second element of u_e 2-tuple must be "
                                      + "1D vector of Velocities")
+                npts = x_pts.shape[0]
                 if npts != u_e_pts.shape[0]:
                     raise ValueError("Vectors in u_e 2-tuple must be of same "
                                      + "length")
-- 
2.43.0


From 4cef1f1e915117a243d4097f45c93431c56fa4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:30 +0000
Subject: [PATCH 12/22] fix: read XFoil dump with a point exactly at stagnation

The point was shared by both surfaces so its arc-length was adjusted twice,
which raised ValueError.
---
 ibl/reference/_xfoil_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ibl/reference/_xfoil_reader.py b/ibl/reference/_xfoil_reader.py
index 2d8eb60..bc75fc8 100644
--- a/ibl/reference/_xfoil_reader.py
+++ b/ibl/reference/_xfoil_reader.py
@@ -200,7 +200,7 @@ class XFoilReader:
         # find stagnation point
         if self._upper[0].u_e_rel == 0:
             stag_s = self._upper[0].s
-            self._lower.insert(0, self._upper[0])
+            self._lower.insert(0, copy.copy(self._upper[0]))
         else:
             # interpolate properties
             up = self._upper[0]
-- 
2.43.0


From 061f8672bf8a3c7d6c4a465990c9d936c878b346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:30 +0000
Subject: [PATCH 13/22] fix: report name of loaded XFoil dump and drop data of
 failed load

The filename was always empty, and a file that could not be read left part
of its data behind.
---
 ibl/reference/_xfoil_reader.py | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/ibl/reference/_xfoil_reader.py b/ibl/reference/_xfoil_reader.py
index bc75fc8..0627bd1 100644
--- a/ibl/reference/_xfoil_reader.py
+++ b/ibl/reference/_xfoil_reader.py
@@ -163,6 +163,20 @@ class XFoilReader:
 
     @filename.setter
     def filename(self, filename: str) -> None:
+        self._reset()
+        if filename == "":
+            return
+
+        # a file that cannot be used must not leave any of its data behind
+        try:
+            self._load(filename)
+        except Exception:
+            self._reset()
+            raise
+        self._filename = filename
+
+    def _reset(self) -> None:
+        """Reset to not having any data."""
         # reset everything
         self._filename = ""
         self._name = ""
@@ -175,9 +189,21 @@ class XFoilReader:
         self._upper = []
         self._lower = []
         self._wake = []
-        if filename == "":
-            return
 
+    def _load(self, filename: str) -> None:
+        """
+        Load the data from dump file.
+
+        Parameters
+        ----------
+        filename : str
+            Name of file containing data.
+
+        Raises
+        ------
+        ValueError
+            If file contains invalid data.
+        """
         # get rows from file
         airfoil_data, wake_data = self._get_dump_data(filename)
 
-- 
2.43.0


From dd1a5b5049dcc70ad03ba42331d8255fdcf0fd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:30 +0000
Subject: [PATCH 14/22] fix: reject XFoil dump without stagnation point and
 skip blank lines

Without velocities of both signs there is no stagnation point to split the
airfoil at, but the last point was used as the lower surface. A blank line at the end
of a file without a wake was taken as wake data.
---
 ibl/reference/_xfoil_reader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ibl/reference/_xfoil_reader.py b/ibl/reference/_xfoil_reader.py
index 0627bd1..90ed475 100644
--- a/ibl/reference/_xfoil_reader.py
+++ b/ibl/reference/_xfoil_reader.py
@@ -215,6 +215,8 @@ class XFoilReader:
                 idx_lower = idx
                 break
             self._upper.insert(0, new_pt)
+        if (not self._upper) or (idx_lower == -1):
+            raise ValueError("No stagnation point in airfoil data")
 
         # extract the lower aifoil data
         self._lower = [XFoilAirfoilData(x) for x in airfoil_data[idx_lower:]]
@@ -818,7 +820,7 @@ class XFoilReader:
         airfoil: List[str] = []
         wake: List[str] = []
         with open(filename, "r", encoding="utf8") as f:
-            buff = f.readlines()
+            buff = [line for line in f.readlines() if line.strip()]
 
         # find the wake index (if exists)
         wake_idx = -1
@@ -826,7 +828,7 @@ class XFoilReader:
             if len(line) < 80:
                 wake_idx = idx
                 break
-        if buff[0][0] == "#":
+        if buff and (buff[0][0] == "#"):
             airfoil_start = 1
         else:
             airfoil_start = 0
-- 
2.43.0


From 345d44f3c1308785cb7f54ae0b974977cc553979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:15 +0000
Subject: [PATCH 15/22] fix: locate XFoil stagnation point away from the
 leading edge

The chord locations were always combined as if on opposite sides of the
leading edge, which put the stagnation point outside of the points that
surround it when they are on the same side.
---
 ibl/reference/_xfoil_reader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ibl/reference/_xfoil_reader.py b/ibl/reference/_xfoil_reader.py
index 90ed475..d3e5dce 100644
--- a/ibl/reference/_xfoil_reader.py
+++ b/ibl/reference/_xfoil_reader.py
@@ -236,6 +236,10 @@ class XFoilReader:
             du = up.u_e_rel + lo.u_e_rel
             frac = up.u_e_rel/du
             stag_pt = self._interpolate_aifoil_data(up, lo, frac)
+            # the leading edge might not be between these points
+            if any(len(side) > 1 and side[1].x < side[0].x
+                   for side in (self._upper, self._lower)):
+                stag_pt.x = frac*lo.x + (1-frac)*up.x
 
             stag_s = stag_pt.s
             self._upper.insert(0, stag_pt)
-- 
2.43.0


From 5258e21435912edf18710142305d7eea1ff3dab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:15 +0000
Subject: [PATCH 16/22] fix: report unknown Stanford Olympics case and drop
 data of failed load

An unknown case raised IndexError, and the previous case was still reported
although its data was gone.
---
 ibl/reference/_stanford_1968.py | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/ibl/reference/_stanford_1968.py b/ibl/reference/_stanford_1968.py
index 8655e50..6073e3a 100644
--- a/ibl/reference/_stanford_1968.py
+++ b/ibl/reference/_stanford_1968.py
@@ -108,16 +108,43 @@ class StanfordOlympics1968:
         ValueError
             When case file to be read contains invalid data.
         """
+        self._reset()
+
+        if case == "":
+            return
+
+        # a case that cannot be used must not leave any of its data behind
+        try:
+            self._load(case)
+        except Exception:
+            self._reset()
+            raise
+
+    def _reset(self) -> None:
+        """Reset to not having any data."""
         # reset everything
+        self._case = ""
         self._nu_ref = np.inf
         self._smooth_vel = None
         self._station = []
 
-        if case == "":
-            self._case = ""
-            return
+    def _load(self, case: str) -> None:
+        """
+        Load the case from the collection of case files in the library.
 
+        Parameters
+        ----------
+        case : str
+            String representation of four digit case number
+
+        Raises
+        ------
+        ValueError
+            When case file to be read contains invalid data.
+        """
         case_data = self._get_case_data(case_id=case)
+        if not case_data:
+            raise ValueError(f"No data for case {case}")
 
         # extract case info
         case_parts = [x.rstrip().lstrip() for x in case_data[0][0].split("=")]
-- 
2.43.0


From ae3e0b7d1375395621cbbe5431d58c627e008025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:33 +0000
Subject: [PATCH 17/22] fix: keep similarity search for eta_inf away from zero

The secant could step to a tiny eta_inf, for which the search for f''(0)
diverges (-0.0338<beta<-0.0333).
---
 ibl/analytic/_analytic_2d_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ibl/analytic/_analytic_2d_base.py b/ibl/analytic/_analytic_2d_base.py
index 6bb513c..26a719b 100644
--- a/ibl/analytic/_analytic_2d_base.py
+++ b/ibl/analytic/_analytic_2d_base.py
@@ -552,6 +552,7 @@ class Analytic2dSimilarityIncompressible(ABC):
             j_max = 100
             i_max = 100
             eta_inf_tol = 1e-8
+            eta_inf_min = 0.25
             eta_inf_max = 20.0
             fw_pp_tol = 1e-8
 
@@ -657,7 +658,7 @@ class Analytic2dSimilarityIncompressible(ABC):
                     # the secant can overshoot when f2 is nearly stationary
                     # and either diverge or converge to the mirror image of
                     # the solution, so keep on the physical side
-                    if not 0.0 < eta_inf_curr <= eta_inf_max:
+                    if not eta_inf_min <= eta_inf_curr <= eta_inf_max:
                         eta_inf_curr = 2.0*eta_inf_prev
                 j = j + 1
         else:
-- 
2.43.0


From 55a3c4a393ccb45ca3756133375f1dd6d03609ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:36 +0000
Subject: [PATCH 18/22] fix: let user termination events return float with
 Thwaites' method

---
 ibl/ibl_method.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ibl/ibl_method.py b/ibl/ibl_method.py
index b5be293..d5a3b57 100644
--- a/ibl/ibl_method.py
+++ b/ibl/ibl_method.py
@@ -194,7 +194,8 @@ class TermEvent(ABC):
         float
             Value that is zero when the solver should stop.
         """
-        return self._call_impl(x, np.asarray(f))
+        # all events need to return same type for ODE solver to combine them
+        return np.asarray(self._call_impl(x, np.asarray(f))).item()
 
     @abstractmethod
     def event_info(self) -> Tuple[TermReason, str]:
-- 
2.43.0


From 9a1062fdfd82659232ffdbb17789256d61b95f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:23 +0000
Subject: [PATCH 19/22] fix: keep edge velocity when derivative of new one
 raises

---
 ibl/ibl_method.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ibl/ibl_method.py b/ibl/ibl_method.py
index d5a3b57..14329c7 100644
--- a/ibl/ibl_method.py
+++ b/ibl/ibl_method.py
@@ -428,15 +428,14 @@ class IBLMethod(ABC):
             elif (d2u_e is not None) and (not callable(d2u_e)):
                 raise ValueError("Must pass in callable object for second "
                                  "derivative if callable u_e given")
-            self._u_e = u_e
 
             # if dU_edx not provided then use finite differences
             if du_e is None:
                 # if U_e has derivative method then use it
                 if (hasattr(u_e, "derivative")
                         and callable(getattr(u_e, "derivative"))):
-                    self._du_e = u_e.derivative()
-                    self._d2u_e = u_e.derivative(2)
+                    self._du_e, self._d2u_e = (u_e.derivative(),
+                                               u_e.derivative(2))
                 else:
                     # FIX: This is depricated in scipy
                     def du_e_fun(x:InputParam) -> InputParam:
@@ -452,8 +451,6 @@ class IBLMethod(ABC):
                     self._du_e = du_e_fun
                     self._d2u_e = d2u_e_fun
             else:
-                self._du_e = du_e
-
                 # if d2U_edx2 not provied then use finite difference
                 if d2u_e is None:
                     # if dU_edx has derivative method then use it
@@ -469,6 +466,8 @@ class IBLMethod(ABC):
                         self._d2u_e = d2u_e_fun
                 else:
                     self._d2u_e = d2u_e
+                self._du_e = du_e
+            self._u_e = u_e
         elif isinstance(u_e, (int, float, np.number)):
             # if is 2-tuple then assume x, dU_edx pairs to build spline
             if hasattr(du_e, "__len__") and len(du_e) == 2:
-- 
2.43.0


From 50161b8434554eca4acca7d0fea16ef1ad831853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:09 +0000
Subject: [PATCH 20/22] fix: correct misplaced decimal point in Stanford
 Olympics case 2300

---
 ibl/data/stanford_olympics/1968/case 2300.txt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ibl/data/stanford_olympics/1968/case 2300.txt b/ibl/data/stanford_olympics/1968/case 2300.txt
index ad3d664..b4e7ff8 100644
--- a/ibl/data/stanford_olympics/1968/case 2300.txt	
+++ b/ibl/data/stanford_olympics/1968/case 2300.txt	
@@ -11,7 +11,7 @@ V = 0.000165
 16.170  21.30  -0.360  1.625  1.755  1.622  18.628  0.00107  0.00116  0.00105   7.531
 19.170  20.20  -0.310  2.050  1.766  1.602  18.799  0.00106  0.00109  0.00105   8.700
 23.920  18.90  -0.270  2.770  1.757  1.614  19.666  0.00096  0.00103  0.00095  12.072
-26.670  18.10  -0.260  3.393  1.758  1.614  20.586  0.00088  0.00099  00.0085  16.284
+26.670  18.10  -0.260  3.393  1.758  1.614  20.586  0.00088  0.00099  0.00085  16.284
 
 # Edge velocity plot
 # X    UI      DUI
-- 
2.43.0


From e457b744b54680468830c3b6e6d59cd34688e3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:38 +0000
Subject: [PATCH 21/22] fix: scale transpiration velocity of similarity
 solutions with alpha

v() contains the factor alpha, v_e() did not, so a solution derived from the
base class with alpha other than one reported a transpiration velocity that
was not the derivative of edge velocity times displacement thickness.
---
 ibl/analytic/_analytic_2d_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ibl/analytic/_analytic_2d_base.py b/ibl/analytic/_analytic_2d_base.py
index 26a719b..537e62d 100644
--- a/ibl/analytic/_analytic_2d_base.py
+++ b/ibl/analytic/_analytic_2d_base.py
@@ -223,7 +223,7 @@ class Analytic2dSimilarityIncompressible(ABC):
         numpy.ndarray
             Transpiration velocity at specified locations.
         """
-        return self.nu_ref*self._g(x)*self.eta_d
+        return self._alpha*self.nu_ref*self._g(x)*self.eta_d
 
     def eta(self, x: InputParam, y: InputParam) -> InputParam:
         """
-- 
2.43.0


From f910fa62d800bf55b0bb37f8df81e5ecdeae9071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:55:53 +0000
Subject: [PATCH 22/22] fix: find the side of the leading edge also when a row
 next to the stagnation point is repeated

---
 ibl/reference/_xfoil_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ibl/reference/_xfoil_reader.py b/ibl/reference/_xfoil_reader.py
index d3e5dce..36c94a4 100644
--- a/ibl/reference/_xfoil_reader.py
+++ b/ibl/reference/_xfoil_reader.py
@@ -237,7 +237,8 @@ class XFoilReader:
             frac = up.u_e_rel/du
             stag_pt = self._interpolate_aifoil_data(up, lo, frac)
             # the leading edge might not be between these points
-            if any(len(side) > 1 and side[1].x < side[0].x
+            if any(next((pt.x for pt in side if pt.x != side[0].x),
+                        side[0].x) < side[0].x
                    for side in (self._upper, self._lower)):
                 stag_pt.x = frac*lo.x + (1-frac)*up.x
 
-- 
2.43.0

