From 4e64ca13f34ab89de280eb2aceb7c2b2c0da4bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:41 +0000
Subject: [PATCH 01/22] fix: bound the left velocity state of the shallow water
 MCL flux with its own height

The limited left bar state has the height h_HLL - f*/c, not h_HLL + f*/c, so
the velocity bounds of the cell left of a node were not enforced and the scheme
was not symmetric under reflection.
---
 finite_volume/shallow_water/solver/mcl.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/finite_volume/shallow_water/solver/mcl.py b/finite_volume/shallow_water/solver/mcl.py
index f824d8f..5942c5d 100644
--- a/finite_volume/shallow_water/solver/mcl.py
+++ b/finite_volume/shallow_water/solver/mcl.py
@@ -25,6 +25,7 @@ class MCLFlux(LowOrderFlux):
     _boundary_conditions: core.BoundaryConditions
 
     _limited_height: np.ndarray
+    _limited_height_left: np.ndarray
     _velocity_bar_state: np.ndarray
 
     def __init__(
@@ -116,6 +117,9 @@ class MCLFlux(LowOrderFlux):
         limited_height_flux: np.ndarray,
     ):
         self._limited_height = self._height_HLL + limited_height_flux / self._wave_speed
+        self._limited_height_left = (
+            self._height_HLL + -limited_height_flux / self._wave_speed
+        )
 
     def _get_limited_discharge_fluxes(
         self, antidiffusive_discharge_flux: np.ndarray
@@ -158,11 +162,11 @@ class MCLFlux(LowOrderFlux):
 
         flux_maximum = self._wave_speed * np.minimum(
             self._limited_height * (velocity_max_right - self._velocity_bar_state),
-            self._limited_height * (self._velocity_bar_state - velocity_min_left),
+            self._limited_height_left * (self._velocity_bar_state - velocity_min_left),
         )
         flux_minimum = self._wave_speed * np.maximum(
             self._limited_height * (velocity_min_right - self._velocity_bar_state),
-            self._limited_height * (self._velocity_bar_state - velocity_max_left),
+            self._limited_height_left * (self._velocity_bar_state - velocity_max_left),
         )
 
         limited_flux = np.maximum(
-- 
2.43.0


From 4e9867ce31e5448b1977737936af9ced71bdc146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:41 +0000
Subject: [PATCH 02/22] fix: use the absolute characteristic speed as scalar
 wave speed

For Burgers data below zero the wave speed was negative, which made the
Lax-Friedrichs flux antidiffusive.
---
 finite_volume/scalar/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/finite_volume/scalar/core.py b/finite_volume/scalar/core.py
index f7aa1b3..aef58bf 100644
--- a/finite_volume/scalar/core.py
+++ b/finite_volume/scalar/core.py
@@ -22,7 +22,8 @@ class WaveSpeed:
 
     def __call__(self, value_left, value_right) -> Tuple:
         wave_speed = np.maximum(
-            self._flux_prime(value_left), self._flux_prime(value_right)
+            np.abs(self._flux_prime(value_left)),
+            np.abs(self._flux_prime(value_right)),
         )
 
         return -wave_speed, wave_speed
-- 
2.43.0


From c61602cc5be1d1afbe9f10297435483c940aef43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:41 +0000
Subject: [PATCH 03/22] fix: no division by zero in the Riemann solver if there
 are no waves

Two neighboured dry cells (shallow water) or zero states (Burgers) made the
flux NaN.
---
 core/riemann_solver.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/riemann_solver.py b/core/riemann_solver.py
index 09a0837..8b9447d 100644
--- a/core/riemann_solver.py
+++ b/core/riemann_solver.py
@@ -1,5 +1,7 @@
 from typing import Any, Callable, Tuple
 
+import numpy as np
+
 FLUX = Callable
 WAVE_SPEED = Callable
 
@@ -28,7 +30,9 @@ class RiemannSolver:
             value_left, value_right
         )
 
-        factor = 1 / (self._wave_speed_right - self._wave_speed_left)
+        wave_speed_step = self._wave_speed_right - self._wave_speed_left
+        # without waves there is no intermediate state
+        factor = 1 / np.where(wave_speed_step == 0, np.inf, wave_speed_step)
         self.intermediate_state = factor * (
             self._wave_speed_right * value_right
             - self._wave_speed_left * value_left
-- 
2.43.0


From 423da6782fdace02c7efc7005a5081558b639a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:41 +0000
Subject: [PATCH 04/22] fix: RungeKutta8 accepts initial_time like the other
 ODE solvers

Continuous Galerkin solvers of degree 3 to 7 could not be created.
---
 core/ode_solver.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/ode_solver.py b/core/ode_solver.py
index 278bbf5..ecbe052 100644
--- a/core/ode_solver.py
+++ b/core/ode_solver.py
@@ -130,9 +130,12 @@ class RungeKutta8(ExplicitRungeKuttaMethod):
     """
 
     def __init__(
-        self, right_hand_side: Callable[[float, T], T], initial_value: T, start_time=0
+        self,
+        right_hand_side: Callable[[float, T], T],
+        initial_value: T,
+        initial_time=0.0,
     ):
-        super().__init__(right_hand_side, initial_value, start_time)
+        super().__init__(right_hand_side, initial_value, initial_time)
         self._build_runge_kutta_matrix()
         self._build_weights()
         self._build_nodes()
-- 
2.43.0


From eb75be3ae5134db1b64ec94c3ebc02829e8b6a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:41 +0000
Subject: [PATCH 05/22] fix: offer ++polynomial-degree for the finite element
 solvers

---
 finite_element/scalar/solver/cg.py     | 1 +
 finite_element/scalar/solver/cg_low.py | 1 +
 finite_element/scalar/solver/mcl.py    | 1 +
 3 files changed, 3 insertions(+)

diff --git a/finite_element/scalar/solver/cg.py b/finite_element/scalar/solver/cg.py
index 9633ca7..d583ef0 100644
--- a/finite_element/scalar/solver/cg.py
+++ b/finite_element/scalar/solver/cg.py
@@ -91,6 +91,7 @@ class CGParser(finite_element.SolverParser):
     solver = ContinuousGalerkinSolver
 
     def _add_arguments(self):
+        super()._add_arguments()
         self.add_argument(
             "++exact-flux", action="store_true", help="Calculate flux matrices exactly."
         )
diff --git a/finite_element/scalar/solver/cg_low.py b/finite_element/scalar/solver/cg_low.py
index 1e7c2b1..7fdd4fd 100644
--- a/finite_element/scalar/solver/cg_low.py
+++ b/finite_element/scalar/solver/cg_low.py
@@ -130,5 +130,6 @@ class CGLowParser(finite_element.SolverParser):
     _cfl_default = 1.0
 
     def _add_arguments(self):
+        super()._add_arguments()
         self._add_adaptive_time_stepping()
         self._add_ode_solver()
diff --git a/finite_element/scalar/solver/mcl.py b/finite_element/scalar/solver/mcl.py
index af2d562..65411f9 100644
--- a/finite_element/scalar/solver/mcl.py
+++ b/finite_element/scalar/solver/mcl.py
@@ -164,5 +164,6 @@ class MCLParser(finite_element.SolverParser):
     _cfl_default = 1.0
 
     def _add_arguments(self):
+        super()._add_arguments()
         self._add_adaptive_time_stepping()
         self._add_ode_solver()
-- 
2.43.0


From 978c794835f386a7f99b7cdd7faa7938c40b6bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:08 +0000
Subject: [PATCH 06/22] fix: a discrete solution owns its values

The arrays passed to a solution were stored by reference. The ODE solver changes
its solution in place, so a rejected (non finite) update still overwrote the
values of the solution.
---
 core/discrete_solution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/discrete_solution.py b/core/discrete_solution.py
index fd2cd8c..c846df8 100644
--- a/core/discrete_solution.py
+++ b/core/discrete_solution.py
@@ -23,7 +23,7 @@ class DiscreteSolution(Generic[T]):
         space=None,
     ):
         self._time = initial_time
-        self._value = initial_value
+        self._value = initial_value.copy()
         self._space = space
 
     @property
@@ -55,7 +55,7 @@ class DiscreteSolution(Generic[T]):
             raise ValueError("Solution is not finite.")
 
         self._time += time_step
-        self._value = value
+        self._value = value.copy()
 
     def set_value(self, value: np.ndarray, time=0.0):
         self.update(time - self._time, value)
@@ -92,7 +92,7 @@ class DiscreteSolutionWithHistory(DiscreteSolution[T]):
 
     @property
     def time_history(self) -> np.ndarray:
-        return self._time_history
+        return self._time_history.copy()
 
     @property
     def time_step_history(self) -> np.ndarray:
-- 
2.43.0


From cd762786f2dd81f9e89c68c20c3e9d9652a678e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:08 +0000
Subject: [PATCH 07/22] fix: keep the history if a new value is rejected

---
 core/discrete_solution.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/discrete_solution.py b/core/discrete_solution.py
index c846df8..b7f9468 100644
--- a/core/discrete_solution.py
+++ b/core/discrete_solution.py
@@ -111,11 +111,12 @@ class DiscreteSolutionWithHistory(DiscreteSolution[T]):
 
     def set_value(self, value: np.ndarray, time=0.0):
         values_past = self.time_history < time
-        self._time_history = self.time_history[values_past]
-        self._value_history = self.value_history[values_past]
-
         self.update(time - self.time, value)
 
+        values_kept = np.append(values_past, True)
+        self._time_history = self._time_history[values_kept]
+        self._value_history = self._value_history[values_kept]
+
 
 class CoarseSolution(DiscreteSolution[T]):
     _coarsener: VectorCoarsener
-- 
2.43.0


From 092f8bcba5c014cf8e5a23e287b14b47ba501ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 08/22] fix: local bounds of periodic ghost cells in the scalar
 MCL flux

The bounds of the two ghost cells missed the cell beyond the boundary, so the
limited fluxes at both ends of a periodic mesh differed and mass was not
conserved.
---
 finite_volume/scalar/solver/mcl.py | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/finite_volume/scalar/solver/mcl.py b/finite_volume/scalar/solver/mcl.py
index 9abc814..17cffe7 100644
--- a/finite_volume/scalar/solver/mcl.py
+++ b/finite_volume/scalar/solver/mcl.py
@@ -1,4 +1,4 @@
-from typing import Tuple
+from typing import List, Set, Tuple
 
 import core
 import finite_volume
@@ -83,13 +83,35 @@ class MCLFlux(finite_volume.LaxFriedrichsFlux):
         return self._local_maximum(dof_vector), self._local_minimum(dof_vector)
 
 
+class GhostCellNeighbourIndicesMapping(finite_volume.NeighbourIndicesMapping):
+    """Neighbours of cells including one ghost cell on each side.
+
+    A ghost cell of a periodic mesh has the same neighbours as the cell it is a
+    copy of.
+
+    """
+
+    def __init__(self, mesh_size: int, periodic=False):
+        self._ghost_cells_periodic = periodic
+        super().__init__(mesh_size + 2)
+
+    def _build_neighbours(self) -> List[Set[int]]:
+        neighbour_indices = super()._build_neighbours()
+
+        if self._ghost_cells_periodic:
+            neighbour_indices[0] = set(neighbour_indices[-2])
+            neighbour_indices[-1] = set(neighbour_indices[1])
+
+        return neighbour_indices
+
+
 class MCLFluxGetter(finite_volume.FluxGetter):
     def __call__(
         self, benchmark: core.Benchmark, space: finite_volume.FiniteVolumeSpace
     ) -> finite_volume.NumericalFlux:
         riemann_solver = scalar.get_riemann_solver(benchmark.problem)
-        neighbours_mapping = finite_volume.NeighbourIndicesMapping(
-            len(space.mesh) + 2, benchmark.boundary_conditions == ("periodic",)
+        neighbours_mapping = GhostCellNeighbourIndicesMapping(
+            len(space.mesh), benchmark.boundary_conditions == ("periodic",)
         )
         return MCLFlux(riemann_solver, neighbours_mapping)
 
-- 
2.43.0


From 92ecee0ee305ee7548b79ffbe9e3892902d1ad0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:24 +0000
Subject: [PATCH 09/22] fix: accept an explicitly given bathymetry in the
 shallow water flux getters

The truth value of an array is ambiguous, and the MCL flux used the given
bathymetry for one of its two fluxes only.
---
 finite_volume/shallow_water/numerical_flux.py       | 6 +++---
 finite_volume/shallow_water/solver/energy_stable.py | 6 +++---
 finite_volume/shallow_water/solver/lax_wendroff.py  | 6 +++---
 finite_volume/shallow_water/solver/low_order.py     | 5 ++---
 finite_volume/shallow_water/solver/mcl.py           | 3 ++-
 finite_volume/shallow_water/solver/reduced_model.py | 6 +++---
 6 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/finite_volume/shallow_water/numerical_flux.py b/finite_volume/shallow_water/numerical_flux.py
index 27e3206..9271ee6 100644
--- a/finite_volume/shallow_water/numerical_flux.py
+++ b/finite_volume/shallow_water/numerical_flux.py
@@ -75,9 +75,9 @@ class FluxGetter(finite_volume.FluxGetter):
         space: finite_volume.FiniteVolumeSpace,
         bathymetry=None,
     ) -> finite_volume.NumericalFlux:
-        bathymetry = bathymetry or swe.build_bathymetry_discretization(
-            benchmark, len(space.mesh)
-        )
+        if bathymetry is None:
+            bathymetry = swe.build_bathymetry_discretization(benchmark, len(space.mesh))
+
         numerical_flux = self._get_flux(benchmark)
 
         return NumericalFlux(
diff --git a/finite_volume/shallow_water/solver/energy_stable.py b/finite_volume/shallow_water/solver/energy_stable.py
index adc92ee..21abe73 100644
--- a/finite_volume/shallow_water/solver/energy_stable.py
+++ b/finite_volume/shallow_water/solver/energy_stable.py
@@ -138,9 +138,9 @@ class FirstOrderDiffusiveEnergyStableFluxGetter(swe.FluxGetter):
         space: finite_volume.FiniteVolumeSpace,
         bathymetry=None,
     ) -> finite_volume.NumericalFlux:
-        bathymetry = bathymetry or swe.build_bathymetry_discretization(
-            benchmark, len(space.mesh)
-        )
+        if bathymetry is None:
+            bathymetry = swe.build_bathymetry_discretization(benchmark, len(space.mesh))
+
         return FirstOrderDiffusiveEnergyStableFlux(
             benchmark.gravitational_acceleration, bathymetry
         )
diff --git a/finite_volume/shallow_water/solver/lax_wendroff.py b/finite_volume/shallow_water/solver/lax_wendroff.py
index bd2ec34..84cd877 100644
--- a/finite_volume/shallow_water/solver/lax_wendroff.py
+++ b/finite_volume/shallow_water/solver/lax_wendroff.py
@@ -47,9 +47,9 @@ class LaxWendroffFluxGetter(finite_volume.FluxGetter):
         space: finite_volume.FiniteVolumeSpace,
         bathymetry=None,
     ) -> finite_volume.NumericalFlux:
-        bathymetry = bathymetry or swe.build_bathymetry_discretization(
-            benchmark, len(space.mesh)
-        )
+        if bathymetry is None:
+            bathymetry = swe.build_bathymetry_discretization(benchmark, len(space.mesh))
+
         numerical_flux = LaxWendroffFlux(
             space.mesh.step_length, benchmark.gravitational_acceleration
         )
diff --git a/finite_volume/shallow_water/solver/low_order.py b/finite_volume/shallow_water/solver/low_order.py
index f644df6..4d28626 100644
--- a/finite_volume/shallow_water/solver/low_order.py
+++ b/finite_volume/shallow_water/solver/low_order.py
@@ -119,9 +119,8 @@ class LowOrderFluxGetter(swe.FluxGetter):
         space: finite_volume.FiniteVolumeSpace,
         bathymetry=None,
     ) -> finite_volume.NumericalFlux:
-        bathymetry = bathymetry or swe.build_bathymetry_discretization(
-            benchmark, len(space.mesh)
-        )
+        if bathymetry is None:
+            bathymetry = swe.build_bathymetry_discretization(benchmark, len(space.mesh))
 
         return LowOrderFlux(
             benchmark.gravitational_acceleration,
diff --git a/finite_volume/shallow_water/solver/mcl.py b/finite_volume/shallow_water/solver/mcl.py
index 5942c5d..812870f 100644
--- a/finite_volume/shallow_water/solver/mcl.py
+++ b/finite_volume/shallow_water/solver/mcl.py
@@ -210,7 +210,8 @@ class MCLFluxGetter(swe.FluxGetter):
             inflow_left=benchmark.inflow_left,
             inflow_right=benchmark.inflow_right,
         )
-        bathymetry = swe.build_bathymetry_discretization(benchmark, len(space.mesh))
+        if bathymetry is None:
+            bathymetry = swe.build_bathymetry_discretization(benchmark, len(space.mesh))
 
         return MCLFlux(
             high_order_flux,
diff --git a/finite_volume/shallow_water/solver/reduced_model.py b/finite_volume/shallow_water/solver/reduced_model.py
index a63293a..6a3d8ef 100644
--- a/finite_volume/shallow_water/solver/reduced_model.py
+++ b/finite_volume/shallow_water/solver/reduced_model.py
@@ -190,9 +190,9 @@ class ReducedFluxGetter(swe.FluxGetter):
         space: finite_volume.FiniteVolumeSpace,
         bathymetry=None,
     ) -> finite_volume.NumericalFlux:
-        bathymetry = bathymetry or swe.build_bathymetry_discretization(
-            benchmark, len(space.mesh)
-        )
+        if bathymetry is None:
+            bathymetry = swe.build_bathymetry_discretization(benchmark, len(space.mesh))
+
         numerical_flux = self._flux_getter(benchmark, space)
         numerical_flux = finite_volume.CorrectedNumericalFlux(
             numerical_flux, self._subgrid_flux
-- 
2.43.0


From 814a9c127bc9e9aac05aafe5e6fa997348685d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:24 +0000
Subject: [PATCH 10/22] fix: subtract the bathymetry source of reduced models
 once

The corrected flux already contains the source term of the underlying flux.
---
 .../shallow_water/solver/reduced_model.py          | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/finite_volume/shallow_water/solver/reduced_model.py b/finite_volume/shallow_water/solver/reduced_model.py
index 6a3d8ef..0be3810 100644
--- a/finite_volume/shallow_water/solver/reduced_model.py
+++ b/finite_volume/shallow_water/solver/reduced_model.py
@@ -190,19 +190,9 @@ class ReducedFluxGetter(swe.FluxGetter):
         space: finite_volume.FiniteVolumeSpace,
         bathymetry=None,
     ) -> finite_volume.NumericalFlux:
-        if bathymetry is None:
-            bathymetry = swe.build_bathymetry_discretization(benchmark, len(space.mesh))
+        numerical_flux = self._flux_getter(benchmark, space, bathymetry=bathymetry)
 
-        numerical_flux = self._flux_getter(benchmark, space)
-        numerical_flux = finite_volume.CorrectedNumericalFlux(
-            numerical_flux, self._subgrid_flux
-        )
-
-        return swe.NumericalFlux(
-            numerical_flux,
-            benchmark.gravitational_acceleration,
-            bathymetry=bathymetry,
-        )
+        return finite_volume.CorrectedNumericalFlux(numerical_flux, self._subgrid_flux)
 
 
 class ReducedSolverParser(finite_volume.SolverParser):
-- 
2.43.0


From e10ce1e64c5a464c4bd52f65fac2f597808229d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:44 +0000
Subject: [PATCH 11/22] fix: antidiffusion parameter zero is not replaced by
 the default

---
 finite_volume/shallow_water/solver/antidiffusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/finite_volume/shallow_water/solver/antidiffusion.py b/finite_volume/shallow_water/solver/antidiffusion.py
index 85c15dd..ed422af 100644
--- a/finite_volume/shallow_water/solver/antidiffusion.py
+++ b/finite_volume/shallow_water/solver/antidiffusion.py
@@ -18,7 +18,7 @@ class LinearAntidiffusiveSolver(swe.Solver):
         flux_getter=None,
         **kwargs
     ) -> Dict:
-        self._gamma = gamma or defaults.ANTIDIFFUSION_GAMMA
+        self._gamma = gamma if gamma is not None else defaults.ANTIDIFFUSION_GAMMA
         self._get_raw_flux = flux_getter or LaxFriedrichsFluxGetter()
 
         return super()._get_solver_args(benchmark, **kwargs)
-- 
2.43.0


From 4753f445fb4b44aa3c2f2453ac9f8c24a94a1489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:44 +0000
Subject: [PATCH 12/22] fix: random benchmarks respect parameters and seeds
 which are zero

---
 benchmark/shallow_water.py | 39 +++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/benchmark/shallow_water.py b/benchmark/shallow_water.py
index 95d98e8..63cacd2 100644
--- a/benchmark/shallow_water.py
+++ b/benchmark/shallow_water.py
@@ -242,18 +242,33 @@ class RandomOscillationNoTopographyBenchmark(OscillationNoTopographyBenchmark):
 
         super().__init__(
             end_time=end_time,
-            height_average=height_average or HEIGHT_AVERAGE,
-            height_amplitude=height_amplitude or self._generator.uniform(0.2, 0.6),
-            height_phase_shift=height_phase_shift
-            or self._generator.uniform(0, 2 * np.pi),
-            height_wave_number=height_wave_number or self._generator.integers(1, 6),
-            velocity_average=velocity_average or self._generator.uniform(1, 2),
-            velocity_amplitude=velocity_amplitude or self._generator.uniform(0.2, 0.6),
-            velocity_phase_shift=velocity_phase_shift
-            or self._generator.uniform(0, 2 * np.pi),
-            velocity_wave_number=velocity_wave_number or self._generator.integers(1, 5),
+            height_average=self._get(height_average, lambda: HEIGHT_AVERAGE),
+            height_amplitude=self._get(
+                height_amplitude, lambda: self._generator.uniform(0.2, 0.6)
+            ),
+            height_phase_shift=self._get(
+                height_phase_shift, lambda: self._generator.uniform(0, 2 * np.pi)
+            ),
+            height_wave_number=self._get(
+                height_wave_number, lambda: self._generator.integers(1, 6)
+            ),
+            velocity_average=self._get(
+                velocity_average, lambda: self._generator.uniform(1, 2)
+            ),
+            velocity_amplitude=self._get(
+                velocity_amplitude, lambda: self._generator.uniform(0.2, 0.6)
+            ),
+            velocity_phase_shift=self._get(
+                velocity_phase_shift, lambda: self._generator.uniform(0, 2 * np.pi)
+            ),
+            velocity_wave_number=self._get(
+                velocity_wave_number, lambda: self._generator.integers(1, 5)
+            ),
         )
 
+    def _get(self, value, get_default):
+        return value if value is not None else get_default()
+
     def as_dict(self) -> Dict:
         return OscillationNoTopographyBenchmark.as_dict(self) | {"seed": self.seed}
 
@@ -267,7 +282,9 @@ class RandomBenchmarkGenerator:
         self._benchmark_kwargs = {"end_time": end_time or 40.0} | kwargs
 
     def __call__(self, seed=None) -> RandomOscillationNoTopographyBenchmark:
-        seed = seed or self._seed_generator.integers(int(1e9))
+        if seed is None:
+            seed = self._seed_generator.integers(int(1e9))
+
         return RandomOscillationNoTopographyBenchmark(seed, **self._benchmark_kwargs)
 
     def __repr__(self) -> str:
-- 
2.43.0


From fdd00edf6c9ea8e9c92d500c39c6215fe7da5668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:52 +0000
Subject: [PATCH 13/22] fix: parameter-variation-test --save-plot passes the
 plot target under its name

---
 command/error_evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/command/error_evolution.py b/command/error_evolution.py
index 5367268..2dbcc28 100644
--- a/command/error_evolution.py
+++ b/command/error_evolution.py
@@ -259,7 +259,7 @@ class GenerateShallowWaterErrorEvolutionSeries(Command):
 
         if self._save_plot:
             plotter = ShallowWaterPlotter(
-                benchmark, show=False, save=f"{self._directory}/plot_{index}.png"
+                benchmark, show=False, save_plot=f"{self._directory}/plot_{index}.png"
             )
             Plot(
                 benchmark, solver, plotter, solver_executed=True, write_warnings=False
-- 
2.43.0


From 931affbf7f7412e6938954ddf2c6191478bdab6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:52 +0000
Subject: [PATCH 14/22] fix: generate-data uses the given end time

---
 command/generate_data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/command/generate_data.py b/command/generate_data.py
index 3b9d4b6..a52c267 100644
--- a/command/generate_data.py
+++ b/command/generate_data.py
@@ -474,6 +474,7 @@ class GenerateDataParser(CalculateParser):
         self._build_directory(arguments)
         arguments.overwrite = not arguments.append
         arguments.benchmark = shallow_water.OscillationNoTopographyBenchmark()
+        self._adjust_end_time(arguments)
         self._build_solver(arguments)
         arguments.solver = arguments.solver[0]
 
-- 
2.43.0


From 5e0bb42d8f0791949450b74ec6f554541e695be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:10 +0000
Subject: [PATCH 15/22] fix: flux approximation remembers the values, not the
 array, it was calculated for

---
 finite_element/flux_approximation.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/finite_element/flux_approximation.py b/finite_element/flux_approximation.py
index d7434f1..b80abfd 100644
--- a/finite_element/flux_approximation.py
+++ b/finite_element/flux_approximation.py
@@ -1,4 +1,4 @@
-from typing import Callable
+from typing import Callable, Optional
 
 import numpy as np
 
@@ -19,15 +19,17 @@ class FluxApproximation:
 
     _flux: Callable[[np.ndarray], np.ndarray]
     _flux_approximation: np.ndarray
-    _last_dof_vector = np.empty(1)
+    _last_dof_vector: Optional[np.ndarray] = None
 
     def __init__(self, flux: Callable[[np.ndarray], np.ndarray]):
         self._flux = flux
 
     def __call__(self, dof_vector: np.ndarray) -> np.ndarray:
-        if (dof_vector != self._last_dof_vector).any():
+        if self._last_dof_vector is None or not np.array_equal(
+            dof_vector, self._last_dof_vector
+        ):
             self._flux_approximation = self._flux(dof_vector)
-            self._last_dof_vector = dof_vector
+            self._last_dof_vector = dof_vector.copy()
 
         return self._flux_approximation
 
-- 
2.43.0


From ae6bcbba03737a121ac79bb65a121f557bd7ba61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 16/22] fix: no division by zero between dry cells in the low
 order and MCL scheme

---
 finite_volume/shallow_water/core.py           |  9 +++++++++
 .../shallow_water/solver/low_order.py         |  6 +++---
 finite_volume/shallow_water/solver/mcl.py     | 19 ++++++++++---------
 3 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/finite_volume/shallow_water/core.py b/finite_volume/shallow_water/core.py
index eda87ce..4e92830 100644
--- a/finite_volume/shallow_water/core.py
+++ b/finite_volume/shallow_water/core.py
@@ -51,6 +51,15 @@ def get_velocities(*dof_vector: np.ndarray) -> Tuple[np.ndarray, ...]:
     return tuple(get_velocity(dof) for dof in dof_vector)
 
 
+def divide(numerator: np.ndarray, denominator: np.ndarray) -> np.ndarray:
+    """Returns quotient, which is set to zero if the denominator vanishes, i.e.
+    between dry cells.
+
+    """
+    is_zero = denominator == 0
+    return np.where(is_zero, 0.0, numerator / np.where(is_zero, 1.0, denominator))
+
+
 def get_height_positivity_fix(
     bar_state: np.ndarray, bathymetry_step: np.ndarray
 ) -> np.ndarray:
diff --git a/finite_volume/shallow_water/solver/low_order.py b/finite_volume/shallow_water/solver/low_order.py
index 4d28626..6b9453a 100644
--- a/finite_volume/shallow_water/solver/low_order.py
+++ b/finite_volume/shallow_water/solver/low_order.py
@@ -104,11 +104,11 @@ class LowOrderFlux(swe.NumericalFlux):
         if self._bathymetry_step is None:
             self._source_term = np.array([0.0])
         else:
-            self._source_term = -(
+            self._source_term = -swe.divide(
                 self._gravitational_acceleration
                 * height_average
-                * self._height_positivity_fix
-                / self._wave_speed
+                * self._height_positivity_fix,
+                self._wave_speed,
             )
 
 
diff --git a/finite_volume/shallow_water/solver/mcl.py b/finite_volume/shallow_water/solver/mcl.py
index 812870f..25f3d0d 100644
--- a/finite_volume/shallow_water/solver/mcl.py
+++ b/finite_volume/shallow_water/solver/mcl.py
@@ -116,10 +116,9 @@ class MCLFlux(LowOrderFlux):
         self,
         limited_height_flux: np.ndarray,
     ):
-        self._limited_height = self._height_HLL + limited_height_flux / self._wave_speed
-        self._limited_height_left = (
-            self._height_HLL + -limited_height_flux / self._wave_speed
-        )
+        limited_height_step = swe.divide(limited_height_flux, self._wave_speed)
+        self._limited_height = self._height_HLL + limited_height_step
+        self._limited_height_left = self._height_HLL + -limited_height_step
 
     def _get_limited_discharge_fluxes(
         self, antidiffusive_discharge_flux: np.ndarray
@@ -139,9 +138,10 @@ class MCLFlux(LowOrderFlux):
         return -limited_fq, limited_fq
 
     def _build_velocity_bar_state(self):
-        self._velocity_bar_state = (
-            self._modified_discharge_left + self._modified_discharge_right
-        ) / (self._modified_height_left + self._modified_height_right)
+        self._velocity_bar_state = swe.divide(
+            self._modified_discharge_left + self._modified_discharge_right,
+            self._modified_height_left + self._modified_height_right,
+        )
 
     def _get_antidiffusive_velocity_fluxes(
         self, antidiffusive_discharge_flux: np.ndarray
@@ -184,8 +184,9 @@ class MCLFlux(LowOrderFlux):
 
         self._replace_nans(hl, hr, vl, vr, ql, qr)
 
-        velocity_maximum = core.maximum(vl, vr, ql / hl, qr / hr)
-        velocity_minimum = core.minimum(vl, vr, ql / hl, qr / hr)
+        velocities = vl, vr, swe.divide(ql, hl), swe.divide(qr, hr)
+        velocity_maximum = core.maximum(*velocities)
+        velocity_minimum = core.minimum(*velocities)
 
         return velocity_maximum, velocity_minimum
 
-- 
2.43.0


From 2b493e758ad0758b060083fff5f3db22faca5072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:10 +0000
Subject: [PATCH 17/22] Revert "fix: random benchmarks respect parameters and
 seeds which are zero"

Recorded as a known finding instead.
---
 benchmark/shallow_water.py | 39 +++++++++++---------------------------
 1 file changed, 11 insertions(+), 28 deletions(-)

diff --git a/benchmark/shallow_water.py b/benchmark/shallow_water.py
index 63cacd2..95d98e8 100644
--- a/benchmark/shallow_water.py
+++ b/benchmark/shallow_water.py
@@ -242,33 +242,18 @@ class RandomOscillationNoTopographyBenchmark(OscillationNoTopographyBenchmark):
 
         super().__init__(
             end_time=end_time,
-            height_average=self._get(height_average, lambda: HEIGHT_AVERAGE),
-            height_amplitude=self._get(
-                height_amplitude, lambda: self._generator.uniform(0.2, 0.6)
-            ),
-            height_phase_shift=self._get(
-                height_phase_shift, lambda: self._generator.uniform(0, 2 * np.pi)
-            ),
-            height_wave_number=self._get(
-                height_wave_number, lambda: self._generator.integers(1, 6)
-            ),
-            velocity_average=self._get(
-                velocity_average, lambda: self._generator.uniform(1, 2)
-            ),
-            velocity_amplitude=self._get(
-                velocity_amplitude, lambda: self._generator.uniform(0.2, 0.6)
-            ),
-            velocity_phase_shift=self._get(
-                velocity_phase_shift, lambda: self._generator.uniform(0, 2 * np.pi)
-            ),
-            velocity_wave_number=self._get(
-                velocity_wave_number, lambda: self._generator.integers(1, 5)
-            ),
+            height_average=height_average or HEIGHT_AVERAGE,
+            height_amplitude=height_amplitude or self._generator.uniform(0.2, 0.6),
+            height_phase_shift=height_phase_shift
+            or self._generator.uniform(0, 2 * np.pi),
+            height_wave_number=height_wave_number or self._generator.integers(1, 6),
+            velocity_average=velocity_average or self._generator.uniform(1, 2),
+            velocity_amplitude=velocity_amplitude or self._generator.uniform(0.2, 0.6),
+            velocity_phase_shift=velocity_phase_shift
+            or self._generator.uniform(0, 2 * np.pi),
+            velocity_wave_number=velocity_wave_number or self._generator.integers(1, 5),
         )
 
-    def _get(self, value, get_default):
-        return value if value is not None else get_default()
-
     def as_dict(self) -> Dict:
         return OscillationNoTopographyBenchmark.as_dict(self) | {"seed": self.seed}
 
@@ -282,9 +267,7 @@ class RandomBenchmarkGenerator:
         self._benchmark_kwargs = {"end_time": end_time or 40.0} | kwargs
 
     def __call__(self, seed=None) -> RandomOscillationNoTopographyBenchmark:
-        if seed is None:
-            seed = self._seed_generator.integers(int(1e9))
-
+        seed = seed or self._seed_generator.integers(int(1e9))
         return RandomOscillationNoTopographyBenchmark(seed, **self._benchmark_kwargs)
 
     def __repr__(self) -> str:
-- 
2.43.0


From 75a76395a3f59b453fabfb7d8c75459794f50cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:38 +0000
Subject: [PATCH 18/22] fix: a flux given by the long option ++flux does not
 start a new solver

---
 core/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/solver.py b/core/solver.py
index 1be643b..e651398 100644
--- a/core/solver.py
+++ b/core/solver.py
@@ -213,7 +213,7 @@ class SolverAction(argparse.Action):
             if (
                 i > 0
                 and value in self.solver_parsers.keys()
-                and values[i - 1] not in ["+f"]
+                and values[i - 1] not in ["+f", "++flux"]
             ):
                 slice_index = i
                 break
-- 
2.43.0


From 12d3d95f9a23a3951e491eec8bf4c97e1a8070da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:55 +0000
Subject: [PATCH 19/22] fix: take es1's entropy step between its two arguments

The step was taken along the array, so fluxes of anything but neighbouring
values (subgrid fluxes of the training data) used the wrong diffusion.
---
 .../shallow_water/solver/energy_stable.py        | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/finite_volume/shallow_water/solver/energy_stable.py b/finite_volume/shallow_water/solver/energy_stable.py
index 21abe73..efaf9fd 100644
--- a/finite_volume/shallow_water/solver/energy_stable.py
+++ b/finite_volume/shallow_water/solver/energy_stable.py
@@ -60,12 +60,7 @@ class FirstOrderDiffusiveEnergyStableFlux(swe.NumericalFlux):
     def _get_diffusion(
         self, value_left: np.ndarray, value_right: np.ndarray
     ) -> np.ndarray:
-        entropy = self._entropy(
-            finite_volume.get_dof_vector(value_left, value_right),
-            bathymetry=self._bathymetry,
-        )
-        entropy_step = self._get_entropy_step(entropy)
-
+        entropy_step = self._get_entropy_step(value_left, value_right)
         diffusion_matrix = self._get_diffusion_matrix(value_left, value_right)
 
         return (diffusion_matrix @ entropy_step)[..., 0]
@@ -119,8 +114,13 @@ class FirstOrderDiffusiveEnergyStableFlux(swe.NumericalFlux):
         )
         return np.moveaxis(Lambda, -1, 0)
 
-    def _get_entropy_step(self, entropy: np.ndarray) -> np.ndarray:
-        entropy_step = np.diff(entropy, axis=0)
+    def _get_entropy_step(
+        self, value_left: np.ndarray, value_right: np.ndarray
+    ) -> np.ndarray:
+        # only the bottom's step between the two cells matters
+        entropy_step = self._entropy(
+            value_right, bathymetry=self._bathymetry_step
+        ) - self._entropy(value_left)
         return entropy_step[..., None]
 
 
-- 
2.43.0


From 20f38b464fae6cd7b15e7b2a5b801cbee9e54ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:57 +0000
Subject: [PATCH 20/22] fix: hidden shallow water plots close their three
 figures

---
 command/plot.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/command/plot.py b/command/plot.py
index 48ee71d..64d4ba6 100644
--- a/command/plot.py
+++ b/command/plot.py
@@ -263,6 +263,16 @@ class ShallowWaterPlotter(Plotter[np.ndarray]):
 
             tqdm.write(f"Plots data are saved in '{base_name}_{{h,q,l}}{extension}'.")
 
+    def _show_plots(self):
+        super()._show_plots()
+
+        for figure in [
+            self._height_figure,
+            self._discharge_figure,
+            self._velocity_figure,
+        ]:
+            plt.close(figure)
+
     def _save_result(self, axes: ..., path: str):
         results = dict()
         for line in axes.get_lines():
-- 
2.43.0


From 60d5da5059c34cbd39a229d28d019d973e090181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:57 +0000
Subject: [PATCH 21/22] fix: animations of solvers only keep the regular time
 steps

---
 command/animate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/command/animate.py b/command/animate.py
index 094da6e..8c7e640 100644
--- a/command/animate.py
+++ b/command/animate.py
@@ -127,7 +127,9 @@ class Animator(ABC, Generic[T]):
             raise NothingToAnimateError
 
     def _setup(self):
-        self._temporal_grid = reduce(np.union1d, self._temporal_grids)
+        self._temporal_grid = reduce(
+            np.union1d, self._temporal_grids, self._temporal_grid
+        )
         self._adjust_values()
         self._adjust_axes()
         self._build_animation()
-- 
2.43.0


From 76330c43cc027ce577f7aac25586da10ca8254d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:57 +0000
Subject: [PATCH 22/22] fix: height axes of animations are fitted to the total
 height

---
 command/animate.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/command/animate.py b/command/animate.py
index 8c7e640..54f9015 100644
--- a/command/animate.py
+++ b/command/animate.py
@@ -301,7 +301,9 @@ class ShallowWaterAnimator(Animator[np.ndarray]):
                 velocity_label = label[2]
 
             (height_line,) = self._height_axes.plot(
-                spatial_grid, swe.get_height(values[0]), label=height_label
+                spatial_grid,
+                self._get_total_height(spatial_grid, swe.get_height(values[0])),
+                label=height_label,
             )
             (discharge_line,) = self._discharge_axes.plot(
                 spatial_grid, swe.get_discharge(values[0]), label=discharge_label
@@ -317,13 +319,13 @@ class ShallowWaterAnimator(Animator[np.ndarray]):
 
         additional_border_factor = 0.05
         values_min, values_max = self._get_min_max_values()
+        total_height_max = self._get_max_total_height()
         v_min, v_max = self._get_min_max_velocities()
 
         self._height_axes.set_xlabel("x")
         self._height_axes.set_ylabel("h+b")
         self._height_axes.set_ylim(
-            top=swe.get_height(values_max)
-            + additional_border_factor * swe.get_height(values_max)
+            top=total_height_max + additional_border_factor * abs(total_height_max)
         )
         self._height_axes.legend()
 
@@ -357,6 +359,17 @@ class ShallowWaterAnimator(Animator[np.ndarray]):
 
         return values_min, values_max
 
+    def _get_max_total_height(self) -> float:
+        bathymetry_max = max(self._benchmark.bathymetry(x) for x in self._spatial_grid)
+        total_heights = [
+            self._get_total_height(spatial_grid, np.max(values[..., 0], axis=0))
+            for spatial_grid, values in zip(
+                self._spatial_grids, self._values_per_solver
+            )
+        ]
+
+        return max(bathymetry_max, *[np.max(height) for height in total_heights])
+
     def _get_min_max_velocities(self) -> Tuple[float, float]:
         velocities_per_solver = [
             swe.get_velocities(*value) for value in self._values_per_solver
-- 
2.43.0

