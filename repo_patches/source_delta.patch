From 5a4ca96f894d2af9d120ad719315788fd3af057e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:51 +0000
Subject: [PATCH 01/47] =?UTF-8?q?fix:=20correct=20B=5F=CF=86'=20when=20int?=
 =?UTF-8?q?egrating=20E=5Fr=20so=20that=20E=5Fr=20is=20recovered?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The sign of the terms coupling the Hall and ambipolar diffusion in both the
numerator and the denominator did not match the induction equation (nor
the denominator used for B_φ'' when E_r is not integrated).
---
 src/disc_solver/solve/deriv_funcs.py | 8 +++++---
 src/disc_solver/solve/solution.py    | 7 ++-----
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/disc_solver/solve/deriv_funcs.py b/src/disc_solver/solve/deriv_funcs.py
index 77e0ac8..9a0e991 100644
--- a/src/disc_solver/solve/deriv_funcs.py
+++ b/src/disc_solver/solve/deriv_funcs.py
@@ -21,7 +21,7 @@ def Z_5_func(*, η_O, η_A, η_H, b_r, b_θ, b_φ, C):
 
 def deriv_B_φ_func(
     *, θ, γ, B_r, B_θ, B_φ, v_r, v_φ, v_θ, η_O, η_A, η_H, E_r, b_r, b_φ, b_θ,
-    C, Z_5, tan=np_tan,
+    C, tan=np_tan,
 ):
     """
     Compute the derivative of B_φ, assuming E_r is being used
@@ -30,7 +30,7 @@ def deriv_B_φ_func(
         C * (v_θ * B_r - v_r * B_θ) - E_r - v_φ * B_θ + B_φ * (
             v_θ + tan(θ) * (η_O + η_A * (1 - b_r ** 2)) + (1 / 4 - γ) * (
                 η_H * b_φ + η_A * b_r * b_θ
-            ) - C * (
+            ) + C * (
                 η_A * b_φ * (
                     b_r * tan(θ) -
                     b_θ * (1/4 - γ)
@@ -40,7 +40,9 @@ def deriv_B_φ_func(
                 )
             )
         )
-    ) / Z_5
+    ) / (
+        η_O + η_A * (1 - b_r ** 2) + C * (η_H * b_θ + η_A * b_r * b_φ)
+    )
 
 
 def deriv_B_r_func(
diff --git a/src/disc_solver/solve/solution.py b/src/disc_solver/solve/solution.py
index 3ede174..140ec83 100644
--- a/src/disc_solver/solve/solution.py
+++ b/src/disc_solver/solve/solution.py
@@ -20,7 +20,7 @@ from scikits.odes.sundials.cvode import StatusEnum
 
 from .deriv_funcs import (
     dderiv_B_φ_soln, deriv_B_r_func, deriv_η_skw_func, deriv_B_φ_func,
-    deriv_E_r_func, C_func, A_func, Z_5_func, B_unit_derivs,
+    deriv_E_r_func, C_func, A_func, B_unit_derivs,
 )
 from .deriv_midplane import (
     taylor_series, get_taylor_first_order, get_taylor_second_order,
@@ -147,15 +147,12 @@ def ode_system(
         b_r, b_φ, b_θ = B_r/B_mag, B_φ/B_mag, B_θ/B_mag
 
         C = C_func(η_O=η_O, η_A=η_A, η_H=η_H, b_θ=b_θ, b_r=b_r, b_φ=b_φ)
-        Z_5 = Z_5_func(
-            η_O=η_O, η_A=η_A, η_H=η_H, b_r=b_r, b_θ=b_θ, b_φ=b_φ, C=C,
-        )
 
         if use_E_r:
             deriv_B_φ = deriv_B_φ_func(
                 θ=θ, γ=γ, B_r=B_r, B_θ=B_θ, B_φ=B_φ, v_r=v_r, v_φ=v_φ, v_θ=v_θ,
                 η_O=η_O, η_A=η_A, η_H=η_H, E_r=E_r, b_θ=b_θ, b_r=b_r, b_φ=b_φ,
-                C=C, Z_5=Z_5,
+                C=C,
             )
         else:
             deriv_B_φ = B_φ_prime
-- 
2.43.0


From 20f45a4548eece54c4381ab7deae8f791228c626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:17 +0000
Subject: [PATCH 02/47] =?UTF-8?q?fix:=20use=20v=5F=CE=B8'''=20for=20the=20?=
 =?UTF-8?q?third=20order=20Taylor=20coefficient=20of=20v=5F=CE=B8?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/disc_solver/solve/deriv_midplane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/deriv_midplane.py b/src/disc_solver/solve/deriv_midplane.py
index 2211ed7..75b3a3a 100644
--- a/src/disc_solver/solve/deriv_midplane.py
+++ b/src/disc_solver/solve/deriv_midplane.py
@@ -420,7 +420,7 @@ def get_taylor_third_order(
 
     third_order[ODEIndex.B_r] = derivs[ODEIndex.B_r]
     third_order[ODEIndex.B_φ] = derivs[ODEIndex.B_φ]
-    third_order[ODEIndex.v_θ] = derivs[ODEIndex.v_φ]
+    third_order[ODEIndex.v_θ] = derivs[ODEIndex.v_θ]
     log.debug("Third order taylor {}".format(third_order))
 
     return third_order
-- 
2.43.0


From ef5137ff7130e88e1631d6a34d3eb34d55c75d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:16 +0000
Subject: [PATCH 03/47] =?UTF-8?q?fix:=20factor=20of=20v=5Fr=C2=B2=20in=20Y?=
 =?UTF-8?q?=5F1,=20and=20hence=20in=20=CF=81''=20and=20=CE=B7''=20at=20the?=
 =?UTF-8?q?=20midplane?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/disc_solver/solve/deriv_midplane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/deriv_midplane.py b/src/disc_solver/solve/deriv_midplane.py
index 75b3a3a..c9a67fe 100644
--- a/src/disc_solver/solve/deriv_midplane.py
+++ b/src/disc_solver/solve/deriv_midplane.py
@@ -68,7 +68,7 @@ def Y_1_func(*, v_r, v_φ, deriv_B_r, deriv_B_φ, γ, a_0):
     """
     return v_φ ** 2 + a_0 * (
         deriv_B_r * (1/4 - γ + deriv_B_r) + deriv_B_φ ** 2
-    ) - v_r ** 2 * γ * (1 - 4 * γ) / 2
+    ) - v_r ** 2 * γ * (1 - 4 * γ)
 
 
 def Y_2_func(
-- 
2.43.0


From 65584cd4723220e534437e09301709c3590fe5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:17 +0000
Subject: [PATCH 04/47] fix: start the main solution from the angle at which
 the Taylor solution stops

The result of insert was discarded, so the values from the end of the Taylor
solution were used as the values at the next angle in the grid.
---
 src/disc_solver/solve/solution.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/disc_solver/solve/solution.py b/src/disc_solver/solve/solution.py
index 140ec83..f04a61e 100644
--- a/src/disc_solver/solve/solution.py
+++ b/src/disc_solver/solve/solution.py
@@ -9,7 +9,7 @@ import logbook
 
 from numpy import (
     array, concatenate, copy, insert, errstate, sqrt, tan, degrees, radians,
-    zeros, nan
+    zeros, nan, isclose
 )
 
 from scikits.odes import ode
@@ -39,6 +39,7 @@ from ..utils import ODEIndex, deduplicate_and_interpolate
 INTEGRATOR = "cvode"
 LINSOLVER = "dense"
 COORDS = "spherical midplane 0"
+ANGLE_RTOL = 1e-9
 
 log = logbook.Logger(__name__)
 
@@ -363,6 +364,17 @@ def jump_across_sonic(
     return post_sonic_angles, post_sonic_initial_conditions
 
 
+def get_post_taylor_angles(angles, taylor_stop_angle):
+    """
+    Get the angles to solve at after taylor_stop_angle, starting at
+    taylor_stop_angle.
+    """
+    # The solver cannot step between angles which differ only by rounding
+    return insert(angles[(angles > taylor_stop_angle) & ~isclose(
+        angles, taylor_stop_angle, rtol=ANGLE_RTOL, atol=0
+    )], 0, taylor_stop_angle)
+
+
 def taylor_solution(
     *, angles, init_con, γ, a_0, norm_kepler_sq, taylor_stop_angle,
     relative_tolerance=float_type(1e-6), absolute_tolerance=float_type(1e-10),
@@ -407,11 +419,14 @@ def taylor_solution(
     else:
         raise SolverError("Taylor solver did not find taylor_stop_angle")
 
-    new_angles = angles[angles > taylor_stop_angle]
-    insert(new_angles, 0, taylor_stop_angle)
+    new_angles = get_post_taylor_angles(angles, taylor_stop_angle)
+    before_stop = (soln.values.t < taylor_stop_angle) & ~isclose(
+        soln.values.t, taylor_stop_angle, rtol=ANGLE_RTOL, atol=0
+    )
 
     return TaylorSolution(
-        angles=scaled_to_rad(soln.values.t, θ_scale), params=soln.values.y,
+        angles=scaled_to_rad(soln.values.t[before_stop], θ_scale),
+        params=soln.values.y[before_stop],
         new_angles=new_angles, internal_data=internal_data,
         new_initial_conditions=soln.tstop.y[0], angle_stopped=soln.tstop.t[0],
     )
@@ -426,8 +441,7 @@ def taylor_jump(
     expansion.
     """
     taylor_stop_angle = rad_to_scaled(taylor_stop_angle, θ_scale)
-    new_angles = angles[angles > taylor_stop_angle]
-    insert(new_angles, 0, taylor_stop_angle)
+    new_angles = get_post_taylor_angles(angles, taylor_stop_angle)
 
     first_order_taylor_values = get_taylor_first_order(
         init_con=init_con, γ=γ, a_0=a_0,
@@ -450,8 +464,8 @@ def taylor_jump(
     )
 
     return TaylorSolution(
-        angles=scaled_to_rad(array([0, taylor_stop_angle]), θ_scale),
-        params=array([init_con, taylor_values]),
+        angles=scaled_to_rad(array([0]), θ_scale),
+        params=array([init_con]),
         new_angles=new_angles, internal_data=None,
         new_initial_conditions=taylor_values, angle_stopped=taylor_stop_angle,
     )
-- 
2.43.0


From 50c24600688b73f6087e61dc32872345652562f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:28 +0000
Subject: [PATCH 05/47] fix: ds-info sonic-on-scale without a sonic point and
 to output_file

Solutions which do not cross the sonic point caused a TypeError, and the
result was written to stdout whatever the output file was.
---
 src/disc_solver/analyse/info.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/disc_solver/analyse/info.py b/src/disc_solver/analyse/info.py
index 80f6106..748fbfc 100644
--- a/src/disc_solver/analyse/info.py
+++ b/src/disc_solver/analyse/info.py
@@ -118,8 +118,10 @@ def info(soln_file, *, group, soln_range, output_file, filename):
         )
         print("{}: {}".format(
             soln_file.config_input.label,
-            sonic_θ / get_scale_height(soln_instance)
-        ))
+            None if sonic_θ is None else (
+                sonic_θ / get_scale_height(soln_instance)
+            )
+        ), file=output_file)
     elif group == "solutions":
         for name, _ in sort_solutions(soln_file.solutions):
             print(name, file=output_file)
-- 
2.43.0


From 479f4bc45053c35d02cdf70e4c6b74707cd77acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:10 +0000
Subject: [PATCH 06/47] fix: allow run files without a final solution to be
 loaded

A run whose solver raised before the run was finalised has no
final_solution member, which made the solutions found impossible to read.
---
 src/disc_solver/file_format/_loaders.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/disc_solver/file_format/_loaders.py b/src/disc_solver/file_format/_loaders.py
index 5789890..ebb5984 100644
--- a/src/disc_solver/file_format/_loaders.py
+++ b/src/disc_solver/file_format/_loaders.py
@@ -1170,7 +1170,7 @@ def _run_loader(group):
         config_input=group["config_input"],
         config_filename=group["config_filename"],
         time=group["time"],
-        final_solution=group["final_solution"],
+        final_solution=group.get("final_solution"),
         solutions=group["solutions"],
         disc_solver_version=None,
         float_type=None,
@@ -1184,7 +1184,7 @@ def _run_loader2(group):
         config_input=group["config_input"],
         config_filename=group["config_filename"],
         time=group["time"],
-        final_solution=group["final_solution"],
+        final_solution=group.get("final_solution"),
         solutions=group["solutions"],
         disc_solver_version=group["disc_solver_version"],
         float_type=None,
@@ -1198,7 +1198,7 @@ def _run_loader3(group):
         config_input=group["config_input"],
         config_filename=group["config_filename"],
         time=group["time"],
-        final_solution=group["final_solution"],
+        final_solution=group.get("final_solution"),
         solutions=group["solutions"],
         disc_solver_version=group["disc_solver_version"],
         float_type=group["float_type"],
@@ -1212,7 +1212,7 @@ def _run_loader4(group):
         config_input=group["config_input"],
         config_filename=group["config_filename"],
         time=group["time"],
-        final_solution=group["final_solution"],
+        final_solution=group.get("final_solution"),
         solutions=group["solutions"],
         disc_solver_version=group["disc_solver_version"],
         float_type=group["float_type"],
@@ -1233,7 +1233,7 @@ def _run_loader5(group):
         if soln.solution_input.use_E_r is None:
             soln.solution_input.use_E_r = use_E_r
 
-    final_solution = group["final_solution"]
+    final_solution = group.get("final_solution")
     if final_solution is not None and (
         final_solution.solution_input.use_E_r is None
     ):
@@ -1265,7 +1265,7 @@ def _run_loader6(group):
         if soln.solution_input.use_E_r is None:
             soln.solution_input.use_E_r = use_E_r
 
-    final_solution = group["final_solution"]
+    final_solution = group.get("final_solution")
     if final_solution is not None and (
         final_solution.solution_input.use_E_r is None
     ):
-- 
2.43.0


From 7d650e09e99746e098b07475e59d12e05a03cbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:10 +0000
Subject: [PATCH 07/47] fix: pass all the required fields when loading early
 format versions

Early ConfigInput and SolutionInput versions lack fields which are now
required, and InternalData no longer has jacobians as an argument, so
these versions could not be loaded.
---
 src/disc_solver/file_format/_loaders.py | 28 +++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/disc_solver/file_format/_loaders.py b/src/disc_solver/file_format/_loaders.py
index ebb5984..e8927c7 100644
--- a/src/disc_solver/file_format/_loaders.py
+++ b/src/disc_solver/file_format/_loaders.py
@@ -23,7 +23,6 @@ def _internal_load(group):
         v_r_taylor=group["v_r_taylor"]["data"],
         v_φ_taylor=group["v_φ_taylor"]["data"],
         ρ_taylor=group["ρ_taylor"]["data"],
-        jacobians=None,
     )
 
 
@@ -40,7 +39,6 @@ def _internal_load2(group):
         v_φ_taylor=group["v_φ_taylor"]["data"],
         ρ_taylor=group["ρ_taylor"]["data"],
         problems=group["problems"],
-        jacobians=None,
     )
 
 
@@ -249,6 +247,10 @@ def _config_loader(group):
         η_O=group.attrs["η_O"],
         η_H=group.attrs["η_H"],
         η_A=group.attrs["η_A"],
+        nwalkers=None,
+        iterations=None,
+        threads=None,
+        target_velocity=None,
         use_E_r=None,
     )
 
@@ -273,6 +275,10 @@ def _config_loader2(group):
         η_H=group.attrs["η_H"],
         η_A=group.attrs["η_A"],
         jump_before_sonic=group["jump_before_sonic"],
+        nwalkers=None,
+        iterations=None,
+        threads=None,
+        target_velocity=None,
         use_E_r=None,
     )
 
@@ -298,6 +304,10 @@ def _config_loader3(group):
         η_A=group.attrs["η_A"],
         jump_before_sonic=group["jump_before_sonic"],
         η_derivs=group.attrs["η_derivs"],
+        nwalkers=None,
+        iterations=None,
+        threads=None,
+        target_velocity=None,
         use_E_r=None,
     )
 
@@ -355,6 +365,7 @@ def _config_loader5(group):
         η_A=group.attrs["η_A"],
         jump_before_sonic=group["jump_before_sonic"],
         η_derivs=group.attrs["η_derivs"],
+        target_velocity=None,
         use_E_r=None,
     )
 
@@ -668,6 +679,10 @@ def _input_loader(group):
         η_O=group.attrs["η_O"],
         η_H=group.attrs["η_H"],
         η_A=group.attrs["η_A"],
+        nwalkers=None,
+        iterations=None,
+        threads=None,
+        target_velocity=None,
         use_E_r=None,
     )
 
@@ -695,6 +710,10 @@ def _input_loader2(group):
         η_H=group.attrs["η_H"],
         η_A=group.attrs["η_A"],
         jump_before_sonic=jump_before_sonic,
+        nwalkers=None,
+        iterations=None,
+        threads=None,
+        target_velocity=None,
         use_E_r=None,
     )
 
@@ -723,6 +742,10 @@ def _input_loader3(group):
         η_A=group.attrs["η_A"],
         jump_before_sonic=jump_before_sonic,
         η_derivs=group.attrs["η_derivs"],
+        nwalkers=None,
+        iterations=None,
+        threads=None,
+        target_velocity=None,
         use_E_r=None,
     )
 
@@ -786,6 +809,7 @@ def _input_loader5(group):
         η_A=group.attrs["η_A"],
         jump_before_sonic=jump_before_sonic,
         η_derivs=group.attrs["η_derivs"],
+        target_velocity=None,
         use_E_r=None,
     )
 
-- 
2.43.0


From fb9bdbcb8ba88e750de7bc88eda7c1b149887b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:04 +0000
Subject: [PATCH 08/47] fix: fill in use_E_r whenever it is missing from a
 stored input

Runs before version 5 left use_E_r as None, which cannot be used to create
a new input, and without caching the value filled in for later versions
was lost on the next access of the solution.
---
 src/disc_solver/file_format/_containers.py |  13 +++
 src/disc_solver/file_format/_loaders.py    | 101 +++++++++++++--------
 2 files changed, 74 insertions(+), 40 deletions(-)

diff --git a/src/disc_solver/file_format/_containers.py b/src/disc_solver/file_format/_containers.py
index 356d24e..e80cd64 100644
--- a/src/disc_solver/file_format/_containers.py
+++ b/src/disc_solver/file_format/_containers.py
@@ -514,6 +514,7 @@ class Solutions(MutableMapping):
         self._solutions = {}
         self.update(solutions)
         self._cache_values_ = None
+        self._default_use_E_r = None
 
     @property
     def _cache_values(self):
@@ -530,6 +531,11 @@ class Solutions(MutableMapping):
         value = self._solutions[key]
         if isinstance(value, OnDemandWrapper):
             value = value()
+            if (
+                self._default_use_E_r is not None and
+                value.solution_input.use_E_r is None
+            ):
+                value.solution_input.use_E_r = self._default_use_E_r
             if self._cache_values:
                 self._solutions[key] = value
         return value
@@ -559,6 +565,13 @@ class Solutions(MutableMapping):
             for key, val in self._solutions.items()
         ) + ")"
 
+    def set_default_use_E_r(self, use_E_r):
+        """
+        Set the value of use_E_r for those solutions whose stored input does
+        not include it
+        """
+        self._default_use_E_r = use_E_r
+
     def add_solution(self, soln):
         """
         Add a solution returning the index of the solution
diff --git a/src/disc_solver/file_format/_loaders.py b/src/disc_solver/file_format/_loaders.py
index e8927c7..bdb6e3b 100644
--- a/src/disc_solver/file_format/_loaders.py
+++ b/src/disc_solver/file_format/_loaders.py
@@ -1188,14 +1188,45 @@ def _input_loader14(group):
     )
 
 
+def _load_with_use_E_r(group, use_E_r):
+    """
+    Load the parts of a run which contain inputs, where inputs written before
+    use_E_r was part of them take the value used by the run.
+    """
+    config_input = group["config_input"]
+    if config_input.use_E_r is None:
+        config_input.use_E_r = str(use_E_r)
+
+    solutions = group["solutions"]
+    if isinstance(solutions, Solutions):
+        # Solutions are loaded on demand (possibly more than once)
+        solutions.set_default_use_E_r(use_E_r)
+    else:
+        for soln in solutions.values():
+            if soln.solution_input.use_E_r is None:
+                soln.solution_input.use_E_r = use_E_r
+
+    final_solution = group.get("final_solution")
+    if final_solution is not None and (
+        final_solution.solution_input.use_E_r is None
+    ):
+        final_solution.solution_input.use_E_r = use_E_r
+
+    return config_input, solutions, final_solution
+
+
 @ds_registry.loader("Run", version=1)
 def _run_loader(group):
+    # E_r was never integrated by these versions
+    config_input, solutions, final_solution = _load_with_use_E_r(
+        group, False
+    )
     return Run(
-        config_input=group["config_input"],
+        config_input=config_input,
         config_filename=group["config_filename"],
         time=group["time"],
-        final_solution=group.get("final_solution"),
-        solutions=group["solutions"],
+        final_solution=final_solution,
+        solutions=solutions,
         disc_solver_version=None,
         float_type=None,
         sonic_method="unknown",
@@ -1204,12 +1235,16 @@ def _run_loader(group):
 
 @ds_registry.loader("Run", version=2)
 def _run_loader2(group):
+    # E_r was never integrated by these versions
+    config_input, solutions, final_solution = _load_with_use_E_r(
+        group, False
+    )
     return Run(
-        config_input=group["config_input"],
+        config_input=config_input,
         config_filename=group["config_filename"],
         time=group["time"],
-        final_solution=group.get("final_solution"),
-        solutions=group["solutions"],
+        final_solution=final_solution,
+        solutions=solutions,
         disc_solver_version=group["disc_solver_version"],
         float_type=None,
         sonic_method="unknown",
@@ -1218,12 +1253,16 @@ def _run_loader2(group):
 
 @ds_registry.loader("Run", version=3)
 def _run_loader3(group):
+    # E_r was never integrated by these versions
+    config_input, solutions, final_solution = _load_with_use_E_r(
+        group, False
+    )
     return Run(
-        config_input=group["config_input"],
+        config_input=config_input,
         config_filename=group["config_filename"],
         time=group["time"],
-        final_solution=group.get("final_solution"),
-        solutions=group["solutions"],
+        final_solution=final_solution,
+        solutions=solutions,
         disc_solver_version=group["disc_solver_version"],
         float_type=group["float_type"],
         sonic_method="unknown",
@@ -1232,12 +1271,16 @@ def _run_loader3(group):
 
 @ds_registry.loader("Run", version=4)
 def _run_loader4(group):
+    # E_r was never integrated by these versions
+    config_input, solutions, final_solution = _load_with_use_E_r(
+        group, False
+    )
     return Run(
-        config_input=group["config_input"],
+        config_input=config_input,
         config_filename=group["config_filename"],
         time=group["time"],
-        final_solution=group.get("final_solution"),
-        solutions=group["solutions"],
+        final_solution=final_solution,
+        solutions=solutions,
         disc_solver_version=group["disc_solver_version"],
         float_type=group["float_type"],
         sonic_method=group["sonic_method"],
@@ -1248,20 +1291,9 @@ def _run_loader4(group):
 def _run_loader5(group):
     use_E_r = group["use_E_r"]
 
-    config_input = group["config_input"]
-    if config_input.use_E_r is None:
-        config_input.use_E_r = str(use_E_r)
-
-    solutions = group["solutions"]
-    for soln in solutions.values():
-        if soln.solution_input.use_E_r is None:
-            soln.solution_input.use_E_r = use_E_r
-
-    final_solution = group.get("final_solution")
-    if final_solution is not None and (
-        final_solution.solution_input.use_E_r is None
-    ):
-        final_solution.solution_input.use_E_r = use_E_r
+    config_input, solutions, final_solution = _load_with_use_E_r(
+        group, use_E_r
+    )
 
     return Run(
         config_input=config_input,
@@ -1280,20 +1312,9 @@ def _run_loader5(group):
 def _run_loader6(group):
     use_E_r = group["use_E_r"]
 
-    config_input = group["config_input"]
-    if config_input.use_E_r is None:
-        config_input.use_E_r = str(use_E_r)
-
-    solutions = group["solutions"]
-    for soln in solutions.values():
-        if soln.solution_input.use_E_r is None:
-            soln.solution_input.use_E_r = use_E_r
-
-    final_solution = group.get("final_solution")
-    if final_solution is not None and (
-        final_solution.solution_input.use_E_r is None
-    ):
-        final_solution.solution_input.use_E_r = use_E_r
+    config_input, solutions, final_solution = _load_with_use_E_r(
+        group, use_E_r
+    )
 
     return Run(
         config_input=config_input,
-- 
2.43.0


From 5897d94146837d7fc34846197777631074a53398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:24 +0000
Subject: [PATCH 09/47] fix: convert missing or partial interp_slice to a
 string which can be read back

interp_slice is None for the input of shock solutions, and a slice without
a stop was converted into a slice without a start.
---
 src/disc_solver/file_format/_containers.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/disc_solver/file_format/_containers.py b/src/disc_solver/file_format/_containers.py
index e80cd64..7a69ea5 100644
--- a/src/disc_solver/file_format/_containers.py
+++ b/src/disc_solver/file_format/_containers.py
@@ -51,6 +51,13 @@ def slice_to_str(slice_):
     """
     Convert a slice back to a string
     """
+    if slice_ is None:
+        return "None"
+    if slice_.stop is None or (
+        slice_.start is None and slice_.step is not None
+    ):
+        # The comma separated form cannot say which parts are missing
+        return str(slice_)
     return ','.join([
         str(i) for i in (slice_.start, slice_.stop, slice_.step)
         if i is not None
-- 
2.43.0


From 959a6530a9323b141f42b72d569eb781af55170c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:42 +0000
Subject: [PATCH 10/47] fix: escape % in labels when writing config files

A label containing % could not be written by ds-tocfg.
---
 src/disc_solver/file_format/_containers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disc_solver/file_format/_containers.py b/src/disc_solver/file_format/_containers.py
index 7a69ea5..4c015f3 100644
--- a/src/disc_solver/file_format/_containers.py
+++ b/src/disc_solver/file_format/_containers.py
@@ -152,7 +152,8 @@ class ConfigInput:
         cfg["config"]["taylor_stop_angle"] = self.taylor_stop_angle
         cfg["config"]["max_steps"] = self.max_steps
         cfg["config"]["num_angles"] = self.num_angles
-        cfg["config"]["label"] = self.label
+        # % is used by configparser for interpolation
+        cfg["config"]["label"] = self.label.replace("%", "%%")
         cfg["config"]["relative_tolerance"] = self.relative_tolerance
         cfg["config"]["absolute_tolerance"] = self.absolute_tolerance
         cfg["config"]["nwalkers"] = self.nwalkers
-- 
2.43.0


From 9134bb8515976afed531ddfb8f1c169bb556fade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:42 +0000
Subject: [PATCH 11/47] =?UTF-8?q?fix:=20do=20not=20exchange=20=CE=B7=5FH?=
 =?UTF-8?q?=20and=20=CE=B7=5FA=20when=20computing=20the=20taylor=20space?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/disc_solver/solve/taylor_space.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disc_solver/solve/taylor_space.py b/src/disc_solver/solve/taylor_space.py
index 6b9ebcc..bc725e2 100644
--- a/src/disc_solver/solve/taylor_space.py
+++ b/src/disc_solver/solve/taylor_space.py
@@ -135,8 +135,8 @@ def solution_input_generator(
             v_a_on_c_s=v_a_on_c_s[i],
             c_s_on_v_k=c_s_on_v_k[i],
             η_O=η_O,
-            η_H=η_A,
-            η_A=η_H,
+            η_H=η_H,
+            η_A=η_A,
         )
 
 
-- 
2.43.0


From 62f3d19dccdd6bfb145401e1636ef53a33a46e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:42 +0000
Subject: [PATCH 12/47] fix: do not change the input of a solution when
 creating the next step

The input of the solution which had already been recorded was modified in
place, so that it no longer was the input the solution was computed from.
---
 src/disc_solver/solve/stepper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/stepper.py b/src/disc_solver/solve/stepper.py
index 23ed565..a31fec7 100644
--- a/src/disc_solver/solve/stepper.py
+++ b/src/disc_solver/solve/stepper.py
@@ -279,7 +279,7 @@ def step_input():
         """
         Return new input
         """
-        inp_dict = vars(soln.solution_input)
+        inp_dict = soln.solution_input.asdict()
         prev_γ = inp_dict["γ"]
         if soln_type == SplitterStatus.DIVERGE:
             inp_dict["γ"] -= step_size
-- 
2.43.0


From 988db6190952713bb1f8f5617732eb34aea6e458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:42 +0000
Subject: [PATCH 13/47] fix: do not change the input of a solution in the fast
 crosser

The input of the solution which had already been recorded was modified in
place, so that it no longer was the input the solution was computed from.
---
 src/disc_solver/solve/fast_crosser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/fast_crosser.py b/src/disc_solver/solve/fast_crosser.py
index 7715080..9ef91db 100644
--- a/src/disc_solver/solve/fast_crosser.py
+++ b/src/disc_solver/solve/fast_crosser.py
@@ -71,7 +71,7 @@ def stepper_creator(soln_writer, *, step_size, solution_input):
         """
         nonlocal phase
         soln_writer(soln, attempt)
-        inp_dict = vars(soln.solution_input)
+        inp_dict = soln.solution_input.asdict()
         current_v_r = inp_dict["v_rin_on_c_s"]
         current_quality = compute_quality(soln)
         log.notice("v_r is {}", current_v_r)
-- 
2.43.0


From 417f0ab9192702220bfdabee178ff597810c1bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:42 +0000
Subject: [PATCH 14/47] fix: start the golden-section search inside the limits

The first probe was 1.6 widths below the lower limit, outside of the
interval which had been found.
---
 src/disc_solver/solve/fast_crosser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/fast_crosser.py b/src/disc_solver/solve/fast_crosser.py
index 9ef91db..348c241 100644
--- a/src/disc_solver/solve/fast_crosser.py
+++ b/src/disc_solver/solve/fast_crosser.py
@@ -120,7 +120,7 @@ def stepper_creator(soln_writer, *, step_size, solution_input):
             # golden ratio
             return SolutionInput(**get_next_input(
                 inp_dict, limits["min"] + (
-                    (limits["min"] - limits["max"]) / (GOLDEN_RATIO - 1)
+                    (limits["max"] - limits["min"]) / GOLDEN_RATIO
                 )
             ))
         if phase == Phase.BISECTING:
-- 
2.43.0


From 0482e99ab40729ace3b37cb9e80097bf46fff992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:42 +0000
Subject: [PATCH 15/47] fix: only interpolate between the points enclosing the
 value

Interpolation used the point after the crossing as well, which gave a point
which does not have the value if the values are not monotonic there.
---
 src/disc_solver/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/disc_solver/utils.py b/src/disc_solver/utils.py
index ecabbe2..704e8ee 100644
--- a/src/disc_solver/utils.py
+++ b/src/disc_solver/utils.py
@@ -436,8 +436,9 @@ def interp_for_value(*, xs, ys, y, **kwargs):
     if ys[initial_index] == y:
         return xs[initial_index]
     min_index = max(0, initial_index - 1)
-    # Add 2 as we want the next index, plus stop is non-inclusive
-    interp_slice = slice(min_index, initial_index + 2)
+    # The value is between the previous point and this one (anything after
+    # that may not be monotonic). Add 1 as stop is non-inclusive.
+    interp_slice = slice(min_index, initial_index + 1)
     return interp1d(ys[interp_slice], xs[interp_slice], **kwargs)(y)
 
 
-- 
2.43.0


From bac05884b5096736f5a5c4197546cf6145d38f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:42 +0000
Subject: [PATCH 16/47] fix: return the closest value from
 get_closest_value_sorted

The next value was always returned instead of the closest.
---
 src/disc_solver/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/disc_solver/utils.py b/src/disc_solver/utils.py
index 704e8ee..20e6c31 100644
--- a/src/disc_solver/utils.py
+++ b/src/disc_solver/utils.py
@@ -461,4 +461,8 @@ def get_closest_value_sorted(*, xs, ys, x):
 
     `xs` must be sorted, `ys` does not.
     """
-    return ys[searchsorted(xs, x)]
+    index = searchsorted(xs, x)
+    # An IndexError if beyond the last value
+    if index > 0 and x - xs[index - 1] < xs[index] - x:
+        index -= 1
+    return ys[index]
-- 
2.43.0


From e1fbb8251e7215a9f95f26ab8ca9150707ab81b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:02 +0000
Subject: [PATCH 17/47] fix: use the spherical radius when scaling to constant
 cylindrical radius

The scaling used heights in units of the scale height, rather than of the
cylindrical radius.
---
 src/disc_solver/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/disc_solver/utils.py b/src/disc_solver/utils.py
index 20e6c31..9cf279a 100644
--- a/src/disc_solver/utils.py
+++ b/src/disc_solver/utils.py
@@ -231,8 +231,9 @@ def get_vertical_scaling(angles, *, c_s_on_v_k):
     """
     Get scaling from spherical to vertical_scale
     """
-    heights = get_heights(angles, c_s_on_v_k=c_s_on_v_k)
-    return sqrt(1 + heights**2)
+    # pylint: disable=unused-argument
+    # The spherical radius at constant cylindrical radius
+    return sqrt(1 + tan(angles)**2)
 
 
 def convert_solution_to_vertical(angles, soln, *, γ, c_s_on_v_k, use_E_r):
-- 
2.43.0


From e317791cb680db27224a789e7d7bb8023156869c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:02 +0000
Subject: [PATCH 18/47] fix: do not share settings between plots
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Settings such as the offset of v_φ were kept for all later plots of the
same process.
---
 src/disc_solver/analyse/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disc_solver/analyse/utils.py b/src/disc_solver/analyse/utils.py
index 114949b..959feb9 100644
--- a/src/disc_solver/analyse/utils.py
+++ b/src/disc_solver/analyse/utils.py
@@ -124,7 +124,8 @@ def get_common_arguments(
     parameters
     """
     params = PLOT_ORDERINGS[ordering]
-    args = [COMMON_ARGUMENTS[param] for param in params]
+    # The settings are modified below, so must not be shared between plots
+    args = [dict(COMMON_ARGUMENTS[param]) for param in params]
 
     if "v_θ" in params:
         args[ODEIndex.v_θ]["scale"] = v_θ_scale
-- 
2.43.0


From f428b9fcc81b125e873bfadfe4a30e4b4f33efcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:02 +0000
Subject: [PATCH 19/47] fix: signs in the polar induction equation used for
 validation
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The Hall terms and one ambipolar term had the opposite sign to those in
E_φ, so valid solutions were reported as not satisfying the equation.
---
 src/disc_solver/analyse/validate_plot.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/disc_solver/analyse/validate_plot.py b/src/disc_solver/analyse/validate_plot.py
index e28b831..789592b 100644
--- a/src/disc_solver/analyse/validate_plot.py
+++ b/src/disc_solver/analyse/validate_plot.py
@@ -348,15 +348,15 @@ def validate_polar_induction(initial_conditions, values):
             values.B_θ * (1 - initial_conditions.β) - values.deriv.B_r
         ) * (
             values.η_O + values.η_A * (1 - values.norm_B_φ**2)
-        ) + values.deriv.B_φ * (
-            values.η_H * values.norm_B_θ -
+        ) - values.deriv.B_φ * (
+            values.η_H * values.norm_B_θ +
             values.η_A * values.norm_B_r * values.norm_B_φ
-        ) + values.B_φ * (
+        ) - values.B_φ * (
             values.η_H * (
                 values.norm_B_r * (1 - initial_conditions.β) -
                 values.norm_B_θ * tan(values.angles)
             ) - values.η_A * values.norm_B_φ * (
-                values.norm_B_θ * (1 - initial_conditions.β) -
+                values.norm_B_θ * (1 - initial_conditions.β) +
                 values.norm_B_r * tan(values.angles)
             )
         )
-- 
2.43.0


From 3888dd54577c472ee40f9ebb0518aad72ea6b565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:02 +0000
Subject: [PATCH 20/47] fix: use the magnitude of the differences in stats

A solution for which all the differences are negative was listed as being
better than an exact one.
---
 src/disc_solver/analyse/stats.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/disc_solver/analyse/stats.py b/src/disc_solver/analyse/stats.py
index 57e02f1..a4a8569 100644
--- a/src/disc_solver/analyse/stats.py
+++ b/src/disc_solver/analyse/stats.py
@@ -9,7 +9,7 @@ from sys import stdin, exc_info
 import logbook
 from logbook.compat import redirected_warnings, redirected_logging
 
-from numpy import degrees, nanargmax, nanmax, sqrt, nan
+from numpy import absolute, degrees, nanargmax, nanmax, sqrt, nan
 
 from h5preserve import open as h5open
 
@@ -69,27 +69,27 @@ def compute_max_difference_in_equations(solution):
     """
     values = get_values(solution)
     return {
-        "max_diff_continuity": max(validate_continuity(
+        "max_diff_continuity": max(absolute(validate_continuity(
             values.initial_conditions, values
-        )),
-        "max_diff_solenoid": max(validate_solenoid(
+        ))),
+        "max_diff_solenoid": max(absolute(validate_solenoid(
             values.initial_conditions, values
-        )),
-        "max_diff_radial_momentum": max(validate_radial_momentum(
+        ))),
+        "max_diff_radial_momentum": max(absolute(validate_radial_momentum(
             values.initial_conditions, values
-        )),
-        "max_diff_azimuthal_momentum": max(validate_azimuthal_mometum(
+        ))),
+        "max_diff_azimuthal_momentum": max(absolute(validate_azimuthal_mometum(
             values.initial_conditions, values
-        )),
-        "max_diff_polar_momentum": max(validate_polar_momentum(
+        ))),
+        "max_diff_polar_momentum": max(absolute(validate_polar_momentum(
             values.initial_conditions, values
-        )),
-        "max_diff_polar_induction": max(validate_polar_induction(
+        ))),
+        "max_diff_polar_induction": max(absolute(validate_polar_induction(
             values.initial_conditions, values
-        )),
-        "max_diff_E_φ": max(validate_E_φ(
+        ))),
+        "max_diff_E_φ": max(absolute(validate_E_φ(
             values.initial_conditions, values
-        )),
+        ))),
     }
 
 
-- 
2.43.0


From 885cf7a532e23922fcb210041d99c69c08be1d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:02 +0000
Subject: [PATCH 21/47] fix: do not pass the options of ds-flow-plot to
 ds-flow-file

ds-flow-file always failed with a TypeError.
---
 src/disc_solver/analyse/trajectory.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/disc_solver/analyse/trajectory.py b/src/disc_solver/analyse/trajectory.py
index fec9190..ee13fdf 100644
--- a/src/disc_solver/analyse/trajectory.py
+++ b/src/disc_solver/analyse/trajectory.py
@@ -163,7 +163,7 @@ def trajectory_output_parser(parser):
 
 def get_args(args):
     """
-    Parse plot args
+    Parse trajectory args
     """
     v_start_position = args.get("v_start_position")
     if v_start_position is None:
@@ -185,7 +185,6 @@ def get_args(args):
     v_step_scaling = args.get("v_step_scaling", DEFAULT_V_STEP_SCALING)
     B_max_steps = args.get("B_max_steps", DEFAULT_B_MAX_STEPS)
     B_step_scaling = args.get("B_step_scaling", DEFAULT_B_STEP_SCALING)
-    with_max_v_angle = args.get("with_max_v_angle")
 
     return {
         "v_start_position": v_start_position,
@@ -194,7 +193,16 @@ def get_args(args):
         "B_start_position": B_start_position,
         "B_max_steps": B_max_steps,
         "B_step_scaling": B_step_scaling,
-        "with_max_v_angle": with_max_v_angle,
+    }
+
+
+def get_plot_args(args):
+    """
+    Parse plot args
+    """
+    return {
+        "with_max_v_angle": args.get("with_max_v_angle", True),
+        **get_args(args)
     }
 
 
@@ -316,7 +324,7 @@ def save_trajectory(
     cmd_parser_splitters={
         "common_plot_output_args": get_common_plot_output_args,
         "common_plot_appearence_args": get_common_plot_appearence_args,
-        "plot_args": get_args,
+        "plot_args": get_plot_args,
     }
 )
 def plot_main(
-- 
2.43.0


From f2bbbd647a59c11f9843933fcf40d5374941924e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:25 +0000
Subject: [PATCH 22/47] fix: do not convert angles to degrees twice in the
 taylor plot

---
 src/disc_solver/analyse/taylor_plot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/disc_solver/analyse/taylor_plot.py b/src/disc_solver/analyse/taylor_plot.py
index 3dea2c7..3e6b5f1 100644
--- a/src/disc_solver/analyse/taylor_plot.py
+++ b/src/disc_solver/analyse/taylor_plot.py
@@ -155,15 +155,15 @@ def generate_taylor_plot(
         )
     else:
         axes[0].plot(
-            degrees(deriv_angles),
+            deriv_angles,
             np.abs(v_r_normal / v_r_taylor), '.'
         )
         axes[1].plot(
-            degrees(deriv_angles),
+            deriv_angles,
             np.abs(v_φ_normal / v_φ_taylor), '.'
         )
         axes[2].plot(
-            degrees(deriv_angles),
+            deriv_angles,
             np.abs(ρ_normal / ρ_taylor), '.'
         )
 
-- 
2.43.0


From dd52d1a8d54c1c11633d53efdfde931aa1b530c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:25 +0000
Subject: [PATCH 23/47] =?UTF-8?q?fix:=20use=20the=20units=20of=20the=20sol?=
 =?UTF-8?q?ution=20for=20the=20Alfv=C3=A9n=20speed?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

B and ρ are in units of B_0 and ρ_0 (and the speeds in units of the sound
speed), so that v_a² is a_0 B²/ρ rather than B²/(4πρ).
---
 src/disc_solver/analyse/combine_plot.py |  4 +++-
 src/disc_solver/analyse/diverge_plot.py |  4 +++-
 src/disc_solver/analyse/plot.py         |  4 +++-
 src/disc_solver/critical_points.py      | 12 ++++++++----
 4 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/disc_solver/analyse/combine_plot.py b/src/disc_solver/analyse/combine_plot.py
index 2702edb..aeb1d45 100644
--- a/src/disc_solver/analyse/combine_plot.py
+++ b/src/disc_solver/analyse/combine_plot.py
@@ -105,7 +105,9 @@ def generate_plot_combine(
 
     norms = get_normalisation(inp)  # need to allow config here
     B_norm, v_norm, ρ_norm = norms["B_norm"], norms["v_norm"], norms["ρ_norm"]
-    wave_speeds = np.sqrt(mhd_wave_speeds(values=solution))
+    wave_speeds = np.sqrt(mhd_wave_speeds(
+        values=solution, a_0=soln.initial_conditions.a_0
+    ))
 
     plot_props = OrderedDict([
         ("velocity", {
diff --git a/src/disc_solver/analyse/diverge_plot.py b/src/disc_solver/analyse/diverge_plot.py
index 99db55c..fde3a09 100644
--- a/src/disc_solver/analyse/diverge_plot.py
+++ b/src/disc_solver/analyse/diverge_plot.py
@@ -115,7 +115,9 @@ def generate_diverge_plot(
             label=soln_name, color=color, linestyle=linestyle,
         )
 
-        wave_speeds = np.sqrt(mhd_wave_speeds(values=solution))
+        wave_speeds = np.sqrt(mhd_wave_speeds(
+            values=solution, a_0=soln.initial_conditions.a_0
+        ))
 
         if with_slow:
             ax.plot(
diff --git a/src/disc_solver/analyse/plot.py b/src/disc_solver/analyse/plot.py
index 9d1837a..c553074 100644
--- a/src/disc_solver/analyse/plot.py
+++ b/src/disc_solver/analyse/plot.py
@@ -111,7 +111,9 @@ def generate_plot(
     roots_angles = soln.t_roots
     roots_values = soln.y_roots
 
-    wave_speeds = sqrt(mhd_wave_speeds(values=solution))
+    wave_speeds = sqrt(mhd_wave_speeds(
+        values=solution, a_0=soln.initial_conditions.a_0
+    ))
 
     indexes = (start <= degrees(angles)) & (degrees(angles) <= stop)
 
diff --git a/src/disc_solver/critical_points.py b/src/disc_solver/critical_points.py
index 1fd8310..a9f3c20 100644
--- a/src/disc_solver/critical_points.py
+++ b/src/disc_solver/critical_points.py
@@ -2,14 +2,14 @@
 """
 Functions relating to the sonic and MHD points
 """
-from numpy import sqrt, any as np_any, pi
+from numpy import sqrt, any as np_any
 
 from .utils import (
     ODEIndex, MHD_Wave_Index, interp_for_value, first_closest_index,
 )
 
 
-def mhd_wave_speeds(*, values, sound_speed=1):
+def mhd_wave_speeds(*, values, a_0, sound_speed=1):
     """
     Computes MHD wave speeds (slow, alfven, fast)
     """
@@ -24,7 +24,9 @@ def mhd_wave_speeds(*, values, sound_speed=1):
     # Blandford and Payne (see section 2.4 "Critical Points")
     cos_sq_psi = (B_θ ** 2) / B_sq
 
-    v_a_sq = B_sq / (4 * pi * ρ)
+    # B and ρ are in units of their midplane values, for which the (square of
+    # the) Alfvén speed is a_0
+    v_a_sq = a_0 * B_sq / ρ
     slow = 1/2 * (
         v_a_sq + sound_speed**2 - sqrt(
             (v_a_sq + sound_speed**2)**2 -
@@ -53,7 +55,9 @@ def get_mach_numbers(solution):
     # Blandford and Payne (see section 2.4 "Critical Points")
     v_sq = v_θ ** 2
 
-    wave_speeds_sq = mhd_wave_speeds(values=soln)
+    wave_speeds_sq = mhd_wave_speeds(
+        values=soln, a_0=solution.initial_conditions.a_0
+    )
 
     slow_mach = sqrt(v_sq / wave_speeds_sq[MHD_Wave_Index.slow])
     alfven_mach = sqrt(v_sq / wave_speeds_sq[MHD_Wave_Index.alfven])
-- 
2.43.0


From b69f8033fc260168924530f63d9c648c5aa719ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:41 +0000
Subject: [PATCH 24/47] fix: load options and sonic points stored as plain
 numbers

---
 src/disc_solver/file_format/_loaders.py | 54 ++++++++++++-------------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/src/disc_solver/file_format/_loaders.py b/src/disc_solver/file_format/_loaders.py
index bdb6e3b..4e0fce7 100644
--- a/src/disc_solver/file_format/_loaders.py
+++ b/src/disc_solver/file_format/_loaders.py
@@ -169,7 +169,7 @@ def _solution_loader_3(group):
     if group["sonic_point"] is None:
         sonic_point = None
     else:
-        sonic_point = group["sonic_point"]["data"]
+        sonic_point = ensure_fully_loaded(group["sonic_point"])
     if group["sonic_point_values"] is None:
         sonic_point_values = None
     else:
@@ -205,7 +205,7 @@ def _solution_loader_4(group):
     if group["sonic_point"] is None:
         sonic_point = None
     else:
-        sonic_point = group["sonic_point"]["data"]
+        sonic_point = ensure_fully_loaded(group["sonic_point"])
     if group["sonic_point_values"] is None:
         sonic_point_values = None
     else:
@@ -692,7 +692,7 @@ def _input_loader2(group):
     if group["jump_before_sonic"] is None:
         jump_before_sonic = None
     else:
-        jump_before_sonic = group["jump_before_sonic"]["data"]
+        jump_before_sonic = ensure_fully_loaded(group["jump_before_sonic"])
     return SolutionInput(
         start=group.attrs["start"],
         stop=group.attrs["stop"],
@@ -723,7 +723,7 @@ def _input_loader3(group):
     if group["jump_before_sonic"] is None:
         jump_before_sonic = None
     else:
-        jump_before_sonic = group["jump_before_sonic"]["data"]
+        jump_before_sonic = ensure_fully_loaded(group["jump_before_sonic"])
     return SolutionInput(
         start=group.attrs["start"],
         stop=group.attrs["stop"],
@@ -755,7 +755,7 @@ def _input_loader4(group):
     if group["jump_before_sonic"] is None:
         jump_before_sonic = None
     else:
-        jump_before_sonic = group["jump_before_sonic"]["data"]
+        jump_before_sonic = ensure_fully_loaded(group["jump_before_sonic"])
     return SolutionInput(
         start=group.attrs["start"],
         stop=group.attrs["stop"],
@@ -787,7 +787,7 @@ def _input_loader5(group):
     if group["jump_before_sonic"] is None:
         jump_before_sonic = None
     else:
-        jump_before_sonic = group["jump_before_sonic"]["data"]
+        jump_before_sonic = ensure_fully_loaded(group["jump_before_sonic"])
     return SolutionInput(
         start=group.attrs["start"],
         stop=group.attrs["stop"],
@@ -819,7 +819,7 @@ def _input_loader6(group):
     if group["jump_before_sonic"] is None:
         jump_before_sonic = None
     else:
-        jump_before_sonic = group["jump_before_sonic"]["data"]
+        jump_before_sonic = ensure_fully_loaded(group["jump_before_sonic"])
     return SolutionInput(
         start=group.attrs["start"],
         stop=group.attrs["stop"],
@@ -851,7 +851,7 @@ def _input_loader7(group):
     if group["jump_before_sonic"] is None:
         jump_before_sonic = None
     else:
-        jump_before_sonic = group["jump_before_sonic"]["data"]
+        jump_before_sonic = ensure_fully_loaded(group["jump_before_sonic"])
     return SolutionInput(
         start=group.attrs["start"],
         stop=group.attrs["stop"],
@@ -883,7 +883,7 @@ def _input_loader8(group):
     if group["jump_before_sonic"] is None:
         jump_before_sonic = None
     else:
-        jump_before_sonic = group["jump_before_sonic"]["data"]
+        jump_before_sonic = ensure_fully_loaded(group["jump_before_sonic"])
     return SolutionInput(
         start=group.attrs["start"],
         stop=group.attrs["stop"],
@@ -916,7 +916,7 @@ def _input_loader9(group):
     if group["jump_before_sonic"] is None:
         jump_before_sonic = None
     else:
-        jump_before_sonic = group["jump_before_sonic"]["data"]
+        jump_before_sonic = ensure_fully_loaded(group["jump_before_sonic"])
     return SolutionInput(
         start=group.attrs["start"],
         stop=group.attrs["stop"],
@@ -950,11 +950,11 @@ def _input_loader10(group):
     if group["jump_before_sonic"] is None:
         jump_before_sonic = None
     else:
-        jump_before_sonic = group["jump_before_sonic"]["data"]
+        jump_before_sonic = ensure_fully_loaded(group["jump_before_sonic"])
     if group["v_θ_sonic_crit"] is None:
         v_θ_sonic_crit = None
     else:
-        v_θ_sonic_crit = group["v_θ_sonic_crit"]["data"]
+        v_θ_sonic_crit = ensure_fully_loaded(group["v_θ_sonic_crit"])
     return SolutionInput(
         start=group.attrs["start"],
         stop=group.attrs["stop"],
@@ -989,15 +989,15 @@ def _input_loader11(group):
     if group["jump_before_sonic"] is None:
         jump_before_sonic = None
     else:
-        jump_before_sonic = group["jump_before_sonic"]["data"]
+        jump_before_sonic = ensure_fully_loaded(group["jump_before_sonic"])
     if group["v_θ_sonic_crit"] is None:
         v_θ_sonic_crit = None
     else:
-        v_θ_sonic_crit = group["v_θ_sonic_crit"]["data"]
+        v_θ_sonic_crit = ensure_fully_loaded(group["v_θ_sonic_crit"])
     if group["after_sonic"] is None:
         after_sonic = None
     else:
-        after_sonic = group["after_sonic"]["data"]
+        after_sonic = ensure_fully_loaded(group["after_sonic"])
     return SolutionInput(
         start=group.attrs["start"],
         stop=group.attrs["stop"],
@@ -1033,19 +1033,19 @@ def _input_loader12(group):
     if group["jump_before_sonic"] is None:
         jump_before_sonic = None
     else:
-        jump_before_sonic = group["jump_before_sonic"]["data"]
+        jump_before_sonic = ensure_fully_loaded(group["jump_before_sonic"])
     if group["v_θ_sonic_crit"] is None:
         v_θ_sonic_crit = None
     else:
-        v_θ_sonic_crit = group["v_θ_sonic_crit"]["data"]
+        v_θ_sonic_crit = ensure_fully_loaded(group["v_θ_sonic_crit"])
     if group["after_sonic"] is None:
         after_sonic = None
     else:
-        after_sonic = group["after_sonic"]["data"]
+        after_sonic = ensure_fully_loaded(group["after_sonic"])
     if group["sonic_interp_size"] is None:
         sonic_interp_size = None
     else:
-        sonic_interp_size = group["sonic_interp_size"]["data"]
+        sonic_interp_size = ensure_fully_loaded(group["sonic_interp_size"])
     return SolutionInput(
         start=group.attrs["start"],
         stop=group.attrs["stop"],
@@ -1083,19 +1083,19 @@ def _input_loader13(group):
     if group["jump_before_sonic"] is None:
         jump_before_sonic = None
     else:
-        jump_before_sonic = group["jump_before_sonic"]["data"]
+        jump_before_sonic = ensure_fully_loaded(group["jump_before_sonic"])
     if group["v_θ_sonic_crit"] is None:
         v_θ_sonic_crit = None
     else:
-        v_θ_sonic_crit = group["v_θ_sonic_crit"]["data"]
+        v_θ_sonic_crit = ensure_fully_loaded(group["v_θ_sonic_crit"])
     if group["after_sonic"] is None:
         after_sonic = None
     else:
-        after_sonic = group["after_sonic"]["data"]
+        after_sonic = ensure_fully_loaded(group["after_sonic"])
     if group["sonic_interp_size"] is None:
         sonic_interp_size = None
     else:
-        sonic_interp_size = group["sonic_interp_size"]["data"]
+        sonic_interp_size = ensure_fully_loaded(group["sonic_interp_size"])
     if group["interp_range"] is None:
         interp_range = None
     else:
@@ -1138,19 +1138,19 @@ def _input_loader14(group):
     if group["jump_before_sonic"] is None:
         jump_before_sonic = None
     else:
-        jump_before_sonic = group["jump_before_sonic"]["data"]
+        jump_before_sonic = ensure_fully_loaded(group["jump_before_sonic"])
     if group["v_θ_sonic_crit"] is None:
         v_θ_sonic_crit = None
     else:
-        v_θ_sonic_crit = group["v_θ_sonic_crit"]["data"]
+        v_θ_sonic_crit = ensure_fully_loaded(group["v_θ_sonic_crit"])
     if group["after_sonic"] is None:
         after_sonic = None
     else:
-        after_sonic = group["after_sonic"]["data"]
+        after_sonic = ensure_fully_loaded(group["after_sonic"])
     if group["sonic_interp_size"] is None:
         sonic_interp_size = None
     else:
-        sonic_interp_size = group["sonic_interp_size"]["data"]
+        sonic_interp_size = ensure_fully_loaded(group["sonic_interp_size"])
     if group["interp_range"] is None:
         interp_range = None
     else:
-- 
2.43.0


From 1987174dfcee996fc6849f98d71d3fa06de63902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:38 +0000
Subject: [PATCH 25/47] fix: read csv files without a header

---
 src/disc_solver/solve/utils.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/disc_solver/solve/utils.py b/src/disc_solver/solve/utils.py
index 5201d52..5656e7e 100644
--- a/src/disc_solver/solve/utils.py
+++ b/src/disc_solver/solve/utils.py
@@ -2,7 +2,7 @@
 """
 Utility function and classes for solver associated code
 """
-from csv import DictReader, Sniffer, get_dialect
+from csv import DictReader, Sniffer, get_dialect, reader
 from multiprocessing import current_process
 from pathlib import Path
 
@@ -231,12 +231,15 @@ class CSVReaderHelper:
 
     def has_csv_header(self):
         """
-        Checks if csv file has header
+        Checks if csv file has header, i.e. the first row names known fields
         """
         self.file.seek(0)
-        has_header = Sniffer().has_header(next(iter(self)))
+        first_row = next(reader(self, dialect="unix"), [])
         self.file.seek(0)
-        return has_header
+        return any(
+            name in CONFIG_FIELDS + SOLUTION_IDENTIFICATION_FIELDS
+            for name in first_row
+        )
 
     def get_dialect(self, *args, lines=5, **kwargs):
         """
-- 
2.43.0


From 16c0eb4db9b15671304589102e0b80f54671cfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:51 +0000
Subject: [PATCH 26/47] fix: cross the sonic point from where the solver
 stopped

---
 src/disc_solver/solve/solution.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/disc_solver/solve/solution.py b/src/disc_solver/solve/solution.py
index f04a61e..0bd72d6 100644
--- a/src/disc_solver/solve/solution.py
+++ b/src/disc_solver/solve/solution.py
@@ -330,6 +330,16 @@ def jacobian_viewer_generator(internal_data):
     return lambda _1, jac_flag, _2, _3, _4, _5, _6: jac_flag
 
 
+def get_stop_point(soln):
+    """
+    Get the angle and values at which the solver stopped, which is the root if
+    there is one (and not the last of the requested angles before it).
+    """
+    if soln.roots.t is not None:
+        return soln.roots.t[-1], soln.roots.y[-1]
+    return soln.values.t[-1], soln.values.y[-1]
+
+
 def jump_across_sonic(
     *, base_solution, angles, system_initial_conditions, γ, a_0,
     norm_kepler_sq, η_derivs=True, θ_scale=float_type(1), use_E_r=False,
@@ -340,8 +350,7 @@ def jump_across_sonic(
     """
     if jump_after_sonic is None:
         jump_after_sonic = jump_before_sonic
-    initial_angle = base_solution.values.t[-1]
-    initial_values = base_solution.values.y[-1]
+    initial_angle, initial_values = get_stop_point(base_solution)
 
     system, _ = ode_system(
         γ=γ, a_0=a_0, norm_kepler_sq=norm_kepler_sq,
@@ -492,21 +501,21 @@ def interp_cross_sonic(
         log.exception("Failed to initialise interpolation")
         return None, None, None, None
 
-    starting_angle = base_solution.values.t[-1]
+    starting_angle, starting_values = get_stop_point(base_solution)
     soln, internal_data = main_solution(
         system_initial_conditions=system_initial_conditions,
         root_func=velocity_stop_generator(1 + after_sonic), root_func_args=1,
-        angles=angles[angles >= starting_angle],
-        ode_initial_conditions=base_solution.values.y[-1], γ=γ, a_0=a_0,
+        angles=concatenate(
+            ([starting_angle], angles[angles > starting_angle])
+        ),
+        ode_initial_conditions=starting_values, γ=γ, a_0=a_0,
         norm_kepler_sq=norm_kepler_sq, relative_tolerance=relative_tolerance,
         absolute_tolerance=absolute_tolerance, max_steps=max_steps,
         η_derivs=η_derivs, store_internal=store_internal, θ_scale=θ_scale,
         use_E_r=use_E_r, deriv_v_θ_func=deriv_v_θ_func,
     )
-    new_angles = concatenate(
-        ([soln.values.t[-1]], angles[angles > soln.values.t[-1]])
-    )
-    new_init_con = soln.values.y[-1]
+    stop_angle, new_init_con = get_stop_point(soln)
+    new_angles = concatenate(([stop_angle], angles[angles > stop_angle]))
 
     return soln, internal_data, new_angles, new_init_con
 
-- 
2.43.0


From eabaff0abc7531be59c338aab415be3ad6df5b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:51 +0000
Subject: [PATCH 27/47] fix: do not hide why a pool could not be started

---
 src/disc_solver/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/utils.py b/src/disc_solver/utils.py
index 9cf279a..f617c31 100644
--- a/src/disc_solver/utils.py
+++ b/src/disc_solver/utils.py
@@ -385,8 +385,8 @@ def nicer_mp_pool(*args, **kwargs):
     """
     Wrapper around multiprocessing.Pool - maybe look at forks or alternatives?
     """
+    pool = Pool(*args, **kwargs)  # pylint: disable=consider-using-with
     try:
-        pool = Pool(*args, **kwargs)  # pylint: disable=consider-using-with
         yield pool
     finally:
         # terminate is usually called, which can break stuff if there's a
-- 
2.43.0


From 3603b1418755578911f77b77542489d9ce64eaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:51 +0000
Subject: [PATCH 28/47] fix: do not free garbage of the main thread in the
 threads of a pool

---
 src/disc_solver/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/disc_solver/utils.py b/src/disc_solver/utils.py
index f617c31..c6335ea 100644
--- a/src/disc_solver/utils.py
+++ b/src/disc_solver/utils.py
@@ -9,6 +9,7 @@ from configparser import ConfigParser
 from contextlib import contextmanager
 from enum import IntEnum
 from functools import wraps
+from gc import collect
 from io import IOBase
 from math import pi, nan
 from multiprocessing import Pool
@@ -385,6 +386,9 @@ def nicer_mp_pool(*args, **kwargs):
     """
     Wrapper around multiprocessing.Pool - maybe look at forks or alternatives?
     """
+    # The pool starts threads and forks, in which existing garbage (such as Tk
+    # windows, which may only be deleted by the main thread) must not be freed
+    collect()
     pool = Pool(*args, **kwargs)  # pylint: disable=consider-using-with
     try:
         yield pool
-- 
2.43.0


From 3d547b6d0d719161b6f2c9d51f0f173da0d180fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:24 +0000
Subject: [PATCH 29/47] fix: only cross the sonic point if it is reached

---
 src/disc_solver/solve/solution.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/disc_solver/solve/solution.py b/src/disc_solver/solve/solution.py
index 0bd72d6..9148fa4 100644
--- a/src/disc_solver/solve/solution.py
+++ b/src/disc_solver/solve/solution.py
@@ -514,6 +514,10 @@ def interp_cross_sonic(
         η_derivs=η_derivs, store_internal=store_internal, θ_scale=θ_scale,
         use_E_r=use_E_r, deriv_v_θ_func=deriv_v_θ_func,
     )
+    if soln.flag != StatusEnum.ROOT_RETURN:
+        log.error("Interpolation stopped before crossing the sonic point")
+        return None, None, None, None
+
     stop_angle, new_init_con = get_stop_point(soln)
     new_angles = concatenate(([stop_angle], angles[angles > stop_angle]))
 
@@ -706,7 +710,10 @@ def solution(
         )
         joined_solution = concatenate((taylor_soln.params, soln.values.y))
 
-    if sonic_interp_size is not None:
+    # If the solver stopped for some other reason then there is nothing to cross
+    found_sonic = soln.flag == StatusEnum.ROOT_RETURN
+
+    if sonic_interp_size is not None and found_sonic:
         int_soln, int_internal, int_angles, int_init_con = interp_cross_sonic(
             base_solution=soln, angles=post_taylor_angles,
             system_initial_conditions=init_con, γ=γ, a_0=a_0,
@@ -754,7 +761,7 @@ def solution(
                 (joined_solution, post_interp_soln.values.y)
             )
 
-    elif jump_before_sonic is not None:
+    elif jump_before_sonic is not None and found_sonic:
         log.info("jumping over sonic point with jump size {}".format(
             jump_before_sonic
         ))
-- 
2.43.0


From b96ee27c36606e5a2cc0d869124d3d7d1422f7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:16 +0000
Subject: [PATCH 30/47] fix: create the directory which the results of ds-shock
 are written to

---
 src/disc_solver/solve/shock.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/disc_solver/solve/shock.py b/src/disc_solver/solve/shock.py
index 5e3650f..400fb99 100644
--- a/src/disc_solver/solve/shock.py
+++ b/src/disc_solver/solve/shock.py
@@ -103,7 +103,8 @@ class ShockFinder:
         self.new_solution_input = new_solution_input
         self.initial_conditions = initial_conditions
         self.angles = angles
-        self.output_dir = output_dir
+        self.output_dir = expanded_path(output_dir)
+        self.output_dir.mkdir(parents=True, exist_ok=True)
         self.store_internal = store_internal
         self.run = run
 
@@ -135,8 +136,8 @@ class ShockFinder:
             return None, None
 
         try:
-            output_hdf5_filename = expanded_path(
-                self.output_dir, get_multiprocessing_filename(self.run)
+            output_hdf5_filename = (
+                self.output_dir / get_multiprocessing_filename(self.run)
             )
             with h5open(output_hdf5_filename, registries, mode='x') as f:
                 f["run"] = self.run
-- 
2.43.0


From 3c9d4e4bceb2ecab2cb0471e00108e1d81955e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:43 +0000
Subject: [PATCH 31/47] fix: use the existing name of the flag for success in
 sonic_root

---
 src/disc_solver/solve/sonic_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/sonic_root.py b/src/disc_solver/solve/sonic_root.py
index ddffd0d..4458d65 100644
--- a/src/disc_solver/solve/sonic_root.py
+++ b/src/disc_solver/solve/sonic_root.py
@@ -232,7 +232,7 @@ def write_solution(run, initial_solution, sonic_solution):
         logger.warn("Sonic solution failed with flag {}".format(
             sonic_solution.flag.name
         ))
-    elif sonic_solution.flag != StatusFlag.SUCESS:
+    elif sonic_solution.flag != StatusFlag.SUCCESS:
         logger.info("Sonic solution ended with flag {}".format(
             sonic_solution.flag.name
         ))
-- 
2.43.0


From deb2e9d718040098d3da490b0732714897c8f450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:00 +0000
Subject: [PATCH 32/47] fix: do not change the initial conditions of solutions
 in sonic_root

---
 src/disc_solver/solve/sonic_root.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/disc_solver/solve/sonic_root.py b/src/disc_solver/solve/sonic_root.py
index 4458d65..a2c15c7 100644
--- a/src/disc_solver/solve/sonic_root.py
+++ b/src/disc_solver/solve/sonic_root.py
@@ -19,7 +19,7 @@ from .solution import solution
 from .utils import velocity_stop_generator, SolverError
 
 from ..float_handling import float_type, FLOAT_TYPE_INFO
-from ..file_format import InitialConditions, Solution
+from ..file_format import Solution
 from ..utils import ODEIndex
 
 logger = logbook.Logger(__name__)
@@ -186,9 +186,11 @@ def total_vars_to_mod_cons(*, initial_conditions, guess, sonic_stop):
     Convert root solver variables to modified initial conditions
     """
     θ_sonic = guess[TotalVars.θ_sonic]
-    mod_cons = InitialConditions(**vars(initial_conditions))
-    mod_cons.angles = linspace(
-        θ_sonic, sonic_stop, len(initial_conditions.angles)
+    # The initial conditions are shared with the solutions, so change a copy
+    mod_cons = initial_conditions.create_modified(
+        init_con=initial_conditions.init_con.copy(), angles=linspace(
+            θ_sonic, sonic_stop, len(initial_conditions.angles)
+        ),
     )
 
     mod_cons.init_con[ODEIndex.v_θ] = float_type(1)
-- 
2.43.0


From f02e2906f1b4ab117ab923f89b90e504eaa5c8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:41 +0000
Subject: [PATCH 33/47] fix: treat root results which are not finite as failed
 in sonic_root

---
 src/disc_solver/solve/sonic_root.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/sonic_root.py b/src/disc_solver/solve/sonic_root.py
index a2c15c7..3ac14dd 100644
--- a/src/disc_solver/solve/sonic_root.py
+++ b/src/disc_solver/solve/sonic_root.py
@@ -7,7 +7,8 @@ from enum import IntEnum
 import logbook
 
 from numpy import (
-    concatenate, diff, full, isnan, linspace, zeros, array, sqrt, log, exp,
+    concatenate, diff, full, isfinite, isnan, linspace, zeros, array, sqrt,
+    log, exp,
 )
 
 from scipy.optimize import root
@@ -141,6 +142,8 @@ def get_root_results(*, sonic_soln, midplane_soln):
     ))
     root_results.append(sonic_soln.angles[-1] - midplane_soln.angles[-1])
     logger.info("Root diff is {}".format(root_results))
+    if not all(isfinite(root_results)):
+        raise SolverError("Subtraction of solutions is not finite")
     return array(root_results)
 
 
-- 
2.43.0


From d1a342827340d43495378dc7f8e736b67aef920b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:41 +0000
Subject: [PATCH 34/47] fix: use the default splitter for unknown split methods

---
 src/disc_solver/solve/stepper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/solve/stepper.py b/src/disc_solver/solve/stepper.py
index a31fec7..8029709 100644
--- a/src/disc_solver/solve/stepper.py
+++ b/src/disc_solver/solve/stepper.py
@@ -248,7 +248,7 @@ def create_soln_splitter(method):
         "human": human_view_splitter_generator,
     }
 
-    return method_dict.get(method)() or v_θ_deriv_splitter
+    return method_dict.get(method, lambda: v_θ_deriv_splitter)()
 
 
 def solution_generator(*, store_internal=True):
-- 
2.43.0


From bf04a3e335f4a6db287f645d6590dda6b30f325c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:20 +0000
Subject: [PATCH 35/47] fix: ignore spaces between the names in mcmc_vars

---
 src/disc_solver/file_format/_containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/file_format/_containers.py b/src/disc_solver/file_format/_containers.py
index 4c015f3..ccb3808 100644
--- a/src/disc_solver/file_format/_containers.py
+++ b/src/disc_solver/file_format/_containers.py
@@ -26,7 +26,7 @@ def mcmc_vars_str_to_obj(mcmc_str):
         return None
     if isinstance(mcmc_str, MCMCVars):
         return mcmc_str
-    split_str = mcmc_str.strip().split(',')
+    split_str = [var.strip() for var in mcmc_str.split(',')]
     return MCMCVars(
         with_v_r="v_r" in split_str,
         with_v_a="v_a" in split_str,
-- 
2.43.0


From d1c8b2bee2a10cebe4a15a1e44db00f6d162cf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:30 +0000
Subject: [PATCH 36/47] =?UTF-8?q?fix:=20correct=20B=5F=CF=86'=20in=20mod?=
 =?UTF-8?q?=5Fhydro=20when=20integrating=20E=5Fr=20so=20that=20E=5Fr=20is?=
 =?UTF-8?q?=20recovered?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/disc_solver/solve/mod_hydro.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/disc_solver/solve/mod_hydro.py b/src/disc_solver/solve/mod_hydro.py
index df3bdf1..63e550c 100644
--- a/src/disc_solver/solve/mod_hydro.py
+++ b/src/disc_solver/solve/mod_hydro.py
@@ -192,6 +192,13 @@ def Z_7_func(*, a_0, X, v_r, B_θ, ρ, Z_5, norm_kepler, C, v_φ, Z_4):
     )
 
 
+def Z_5_E_r_func(*, η_O, η_A, η_H, b_r, b_θ, b_φ, C):
+    """
+    Compute the value of the variable Z_5 when E_r is used
+    """
+    return η_O + η_A * (1 - b_r ** 2) + C * (η_H * b_θ + η_A * b_r * b_φ)
+
+
 def Z_8_func(*, θ, b_r, b_θ, b_φ, B_φ, η_O, η_A, η_H, E_r, Z_5, C):
     """
     Compute the value of the variable Z_8
@@ -200,7 +207,7 @@ def Z_8_func(*, θ, b_r, b_θ, b_φ, B_φ, η_O, η_A, η_H, E_r, Z_5, C):
         - E_r + B_φ * (
             tan(θ) * (η_O + η_A * (1 - b_r ** 2)) + (
                 η_H * b_φ + η_A * b_r * b_θ
-            ) / 4 - C * (
+            ) / 4 + C * (
                 η_A * b_φ * (
                     b_r * tan(θ) - b_θ / 4
                 ) + η_H * (
@@ -340,7 +347,7 @@ def fix_solution(
 
         C = C_func(η_O=η_O, η_A=η_A, η_H=η_H, b_θ=b_θ, b_r=b_r, b_φ=b_φ)
         X = X_func(η_O=η_O, η_A=η_A, η_H=η_H, b_θ=b_θ, b_r=b_r, b_φ=b_φ)
-        Z_5 = Z_5_func(
+        Z_5 = Z_5_E_r_func(
             η_O=η_O, η_A=η_A, η_H=η_H, b_r=b_r, b_θ=b_θ, b_φ=b_φ, C=C
         )
         Z_8 = Z_8_func(
@@ -428,7 +435,7 @@ def ode_system(
 
         C = C_func(η_O=η_O, η_A=η_A, η_H=η_H, b_θ=b_θ, b_r=b_r, b_φ=b_φ)
         X = X_func(η_O=η_O, η_A=η_A, η_H=η_H, b_θ=b_θ, b_r=b_r, b_φ=b_φ)
-        Z_5 = Z_5_func(
+        Z_5 = (Z_5_E_r_func if use_E_r else Z_5_func)(
             η_O=η_O, η_A=η_A, η_H=η_H, b_r=b_r, b_θ=b_θ, b_φ=b_φ, C=C
         )
 
-- 
2.43.0


From 2da5f4338028210ac475d5cc2c3c5fe526440306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:41 +0000
Subject: [PATCH 37/47] =?UTF-8?q?fix:=20factor=20of=20v=5Fr=C2=B2=20in=20t?=
 =?UTF-8?q?he=20radial=20terms=20of=20the=20component=20plot?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/disc_solver/analyse/component_plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/analyse/component_plot.py b/src/disc_solver/analyse/component_plot.py
index a685195..a348277 100644
--- a/src/disc_solver/analyse/component_plot.py
+++ b/src/disc_solver/analyse/component_plot.py
@@ -161,7 +161,7 @@ def compute_components(soln, indexes, angles):
 
     components = {
         "radial momentum": {
-            "radial terms": v_r ** 2 + v_θ ** 2 + 5 / 2 - 2 * γ,
+            "radial terms": v_r ** 2 / 2 + v_θ ** 2 + 5 / 2 - 2 * γ,
             "keplerian terms": (v_φ - norm_kepler) * (v_φ + norm_kepler),
             "magnetic terms": (
                 a_0 / ρ * (B_θ * deriv_B_r + (1/4 - γ) * (B_θ ** 2 + B_φ ** 2))
-- 
2.43.0


From b7c9081d3746d5e76734d5a05891576c93f798c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:47 +0000
Subject: [PATCH 38/47] fix: integrate the density over the angle to find the
 surface density

---
 src/disc_solver/analyse/phys_ratio_plot.py      | 6 ++++--
 src/disc_solver/analyse/surface_density_plot.py | 7 +++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/disc_solver/analyse/phys_ratio_plot.py b/src/disc_solver/analyse/phys_ratio_plot.py
index 598bf37..6c393e6 100644
--- a/src/disc_solver/analyse/phys_ratio_plot.py
+++ b/src/disc_solver/analyse/phys_ratio_plot.py
@@ -2,7 +2,7 @@
 """
 Plot command for DiscSolver
 """
-from numpy import degrees, sum as np_sum, pi
+from numpy import degrees, pi
 from scipy.integrate import simpson as simps
 
 from ..float_handling import float_type
@@ -190,4 +190,6 @@ def compute_Σ(soln, indexes=slice(None)):
     """
     Compute Σ
     """
-    return np_sum(soln.solution[indexes, ODEIndex.ρ])
+    return simps(
+        y=soln.solution[indexes, ODEIndex.ρ], x=soln.angles[indexes]
+    )
diff --git a/src/disc_solver/analyse/surface_density_plot.py b/src/disc_solver/analyse/surface_density_plot.py
index 1e6126c..5598577 100644
--- a/src/disc_solver/analyse/surface_density_plot.py
+++ b/src/disc_solver/analyse/surface_density_plot.py
@@ -2,7 +2,8 @@
 """
 surface-density-plot command for DiscSolver
 """
-from numpy import degrees, cumsum
+from numpy import degrees
+from scipy.integrate import cumulative_trapezoid
 
 from ..utils import ODEIndex
 from .utils import (
@@ -71,7 +72,9 @@ def generate_surface_density_plot(
 
     indexes = (start <= degrees(angles)) & (degrees(angles) <= stop)
 
-    cum_σ = cumsum(solution[:, ODEIndex.ρ])
+    cum_σ = cumulative_trapezoid(
+        solution[:, ODEIndex.ρ], x=angles, initial=0
+    )
     axes = fig.subplots()
     axes.plot(degrees(angles[indexes]), cum_σ[indexes])
     axes.set_xlabel("angle from plane (°)")
-- 
2.43.0


From a4645f9a3fff57bf5ab23839586497a67c2b045f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:11 +0000
Subject: [PATCH 39/47] fix: coefficients around the last value when there is
 no critical point

---
 src/disc_solver/analyse/compute_jacobian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disc_solver/analyse/compute_jacobian.py b/src/disc_solver/analyse/compute_jacobian.py
index b3ae542..ed49e4c 100644
--- a/src/disc_solver/analyse/compute_jacobian.py
+++ b/src/disc_solver/analyse/compute_jacobian.py
@@ -526,7 +526,8 @@ def compute_jacobian_at_index(soln, *, eps, θ_scale=float_type(1), index):
     """
     Compute jacobian from solution at index
     """
-    s = slice(index, index+1)
+    # A list keeps the dimension, and works for negative indices as well
+    s = [index]
     solution = soln.solution[s]
     angles = soln.angles[s]
     cons = soln.initial_conditions
-- 
2.43.0


From 1e8096750d054bceeb9895dd05d87f1d5f111516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:59 +0000
Subject: [PATCH 40/47] fix: do not repeat the position at which the step of a
 trajectory is reduced

---
 src/disc_solver/analyse/trajectory.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/disc_solver/analyse/trajectory.py b/src/disc_solver/analyse/trajectory.py
index ee13fdf..935ae47 100644
--- a/src/disc_solver/analyse/trajectory.py
+++ b/src/disc_solver/analyse/trajectory.py
@@ -89,15 +89,11 @@ def follow_trajectory(
             except IndexError:
                 print("Errored at step with new scaling, stopping", step, pos)
                 break
-            prev_vals = vals
-            prev_pos = pos
-            yield vals, pos
-        else:
-            prev_vals = vals
-            prev_pos = pos
-            yield vals, pos
-            # Add in scaling by r^2 to allow for bigger steps
-            pos = pos + step_scaling * vals
+        prev_vals = vals
+        prev_pos = pos
+        yield vals, pos
+        # Add in scaling by r^2 to allow for bigger steps
+        pos = pos + step_scaling * vals
 
 
 def get_trajectory(
-- 
2.43.0


From c4b4a6bf4947dcbd7a61ea33f640602ba938162e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:59 +0000
Subject: [PATCH 41/47] fix: stop trajectories which start outside of the
 solution

---
 src/disc_solver/analyse/trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/analyse/trajectory.py b/src/disc_solver/analyse/trajectory.py
index 935ae47..66888c1 100644
--- a/src/disc_solver/analyse/trajectory.py
+++ b/src/disc_solver/analyse/trajectory.py
@@ -65,7 +65,7 @@ def follow_trajectory(
     # Using 0 means that no change will happen on the first scaling if there is
     # an error
     prev_vals = 0
-    prev_pos = 0
+    prev_pos = pos
     for step in range(max_steps):
         try:
             vals = compute_values(
-- 
2.43.0


From c1e285da14b68ee9560b0c753ba917af51fde6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:31 +0000
Subject: [PATCH 42/47] fix: csvrunner when a solver leaves no final solution

---
 src/disc_solver/solve/csvrunner.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/disc_solver/solve/csvrunner.py b/src/disc_solver/solve/csvrunner.py
index 3e2bfe8..767ef85 100644
--- a/src/disc_solver/solve/csvrunner.py
+++ b/src/disc_solver/solve/csvrunner.py
@@ -14,7 +14,9 @@ from .utils import (
 )
 
 from .. import __version__ as ds_version
-from ..file_format import Run, ConfigInput, SOLUTION_INPUT_FIELDS
+from ..file_format import (
+    Run, ConfigInput, Solution, SOLUTION_INPUT_FIELDS,
+)
 from ..float_handling import float_type
 from ..utils import open_or_stream, main_entry_point_wrapper, nicer_mp_pool
 
@@ -76,7 +78,7 @@ class SolutionFinder:
         print(f"Run size in {process_name} is {asizeof(run)}")
 
         if succeeded:
-            if run.final_solution is None:
+            if not isinstance(run.final_solution, Solution):
                 print(run)
                 return None
             return run.final_solution.solution_input.asdict()
-- 
2.43.0


From 4ca06132a727ee83866106bfc8f3e53f9acc267f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:06 +0000
Subject: [PATCH 43/47] fix: missing digit of the astronomical unit

---
 src/disc_solver/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disc_solver/constants.py b/src/disc_solver/constants.py
index 86ce217..d6d7a89 100644
--- a/src/disc_solver/constants.py
+++ b/src/disc_solver/constants.py
@@ -4,7 +4,7 @@ Physical constants used in code
 """
 from .float_handling import float_type
 G = float_type(6.6742e-8)  # (cm^3 ∕ (g*s^2))
-AU = float_type(1.4957871e13)  # cm
+AU = float_type(1.49597871e13)  # cm
 M_SUN = float_type(2e33)  # g
 KM = float_type(1e5)  # cm
 YEAR = float_type(31557600)  # s
-- 
2.43.0


From dfde97c6cd0cb85ccb6ccedaf50d8dc066bc570d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:42 +0000
Subject: [PATCH 44/47] fix: do not free garbage of the main thread in the
 thread of the progress bar

---
 src/disc_solver/solve/mcmc.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/disc_solver/solve/mcmc.py b/src/disc_solver/solve/mcmc.py
index 9974e49..8b999cf 100644
--- a/src/disc_solver/solve/mcmc.py
+++ b/src/disc_solver/solve/mcmc.py
@@ -4,6 +4,7 @@ Stepper related logic
 """
 
 from enum import IntEnum, unique, auto
+from gc import collect
 
 import logbook
 
@@ -88,6 +89,10 @@ def solver(soln_input, run, store_internal=True):
         soln_input.nwalkers, len(sys_vars_enum), logprobfunc,
     )
 
+    # The progress bar is watched by a thread, in which existing garbage (such
+    # as Tk windows, which may only be deleted by the main thread) must not be
+    # freed
+    collect()
     with errstate(invalid="ignore"):
         sampler.run_mcmc(
             generate_initial_positions(soln_input, sys_vars_enum),
-- 
2.43.0


From 9a38122701e0bc9812084f3c41307a1f5b2eb69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:14 +0000
Subject: [PATCH 45/47] fix: refuse inputs which imply infinite initial
 conditions

---
 src/disc_solver/solve/config.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/disc_solver/solve/config.py b/src/disc_solver/solve/config.py
index 01e2fe8..cc5f693 100644
--- a/src/disc_solver/solve/config.py
+++ b/src/disc_solver/solve/config.py
@@ -96,11 +96,14 @@ def define_conditions(inp):
         init_con[ODEIndex.B_φ_prime] = B_φ_prime
 
     angles = np.radians(np.linspace(inp.start, inp.stop, inp.num_angles))
-    if np.any(np.isnan(init_con)):
+    not_finite = ~np.isfinite(init_con)
+    if np.any(not_finite):
         nan_names = []
-        for i in np.isnan(init_con).nonzero()[0]:
+        for i in not_finite.nonzero()[0]:
             nan_names.append(ODEIndex(i).name)
-        raise SolverError("Input implies NaN: {}".format(nan_names))
+        raise SolverError("Input implies NaN or infinity: {}".format(
+            nan_names
+        ))
 
     return InitialConditions(
         norm_kepler_sq=norm_kepler_sq, a_0=a_0, init_con=init_con,
-- 
2.43.0


From 651eb82c428f5b434aa285c5dc78539b29656fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:13 +0000
Subject: [PATCH 46/47] fix: keep records in the log file which are shown with
 --verbose or --quiet

---
 src/disc_solver/logging.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disc_solver/logging.py b/src/disc_solver/logging.py
index 6cf685a..1b7d361 100644
--- a/src/disc_solver/logging.py
+++ b/src/disc_solver/logging.py
@@ -42,9 +42,9 @@ def log_handler(args, thread_wrapping=True):
     if not isinstance(args, dict):
         args = vars(args)
     if args.get("quiet"):
-        stderr_handler = ColorizedStderrHandler(level="ERROR")
+        stderr_handler = ColorizedStderrHandler(level="ERROR", bubble=True)
     elif args.get("verbose"):
-        stderr_handler = ColorizedStderrHandler(level="DEBUG")
+        stderr_handler = ColorizedStderrHandler(level="DEBUG", bubble=True)
     else:
         stderr_handler = ColorizedStderrHandler(
             level=args.get("stderr_level", "NOTICE").upper(), bubble=True
-- 
2.43.0


From 19d269f9b1c13cef7679a69548bd80d7fff775f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:30 +0000
Subject: [PATCH 47/47] fix: write queued log records before the process ends

---
 src/disc_solver/logging.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/disc_solver/logging.py b/src/disc_solver/logging.py
index 1b7d361..9d0595c 100644
--- a/src/disc_solver/logging.py
+++ b/src/disc_solver/logging.py
@@ -2,6 +2,7 @@
 """
 Logging configuration functions
 """
+from atexit import register
 import multiprocessing
 from os import environ
 
@@ -67,6 +68,10 @@ def log_handler(args, thread_wrapping=True):
         if not disable_thread_wrapping:
             file_handler = ThreadedWrapperHandler(file_handler)
             stderr_handler = ThreadedWrapperHandler(stderr_handler)
+            # The threads do not keep the process alive, hence stop only once
+            # they have written what is queued
+            register(file_handler.close)
+            register(stderr_handler.close)
 
     return NestedSetup([
         NullHandler(),  # catch everything else
-- 
2.43.0

