"""Access to the implementation in /repo through its public API only.

Everything a check feeds to the code (problems with prescribed initial data,
solver factories) is built here; nothing in /repo is patched.
"""
import os
import sys

REPO = os.environ.get("CLS1_REPO", "/repo")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("TQDM_DISABLE", "1")

import warnings

warnings.filterwarnings("ignore")
import numpy as np

np.seterr(all="ignore")

import core
import finite_volume
import finite_volume.scalar as fvs
import finite_volume.shallow_water as swe
import finite_element
import benchmark  # noqa: F401
from core.benchmark import Benchmark

from finite_volume.scalar import solver as fv_scalar_solver
from finite_volume.shallow_water import solver as swe_solver
from finite_element.scalar import solver as fe_solver


# --------------------------------------------------------------------------
# problems with prescribed data
# --------------------------------------------------------------------------
class Inside:
    """Variation inside the cells of mean zero: cubic polynomials."""

    def __init__(self, n, kind):
        """KIND: None, or (seed, size, signs): one sign per component, the same polynomial up to the sign."""
        self._c = None
        if kind is not None:
            seed, size, self._signs = kind
            r = np.random.default_rng(seed)
            self._size = size * np.ones(len(self._signs))
            self._c = r.uniform(-1, 1, (n, 3))
            self._own = r.uniform(-1, 1, (n, len(self._signs), 3))

    def __call__(self, cell, z, component):
        """At the coordinate z in [0, 1] of a cell."""
        if self._c is None:
            return 0.0
        sign = self._signs[component]
        c = self._own[cell, component] if sign is None else sign * self._c[cell]
        z = z - 0.5
        c = self._size[component] * c
        return float(c[0] * z + c[1] * (z * z - 1 / 12) + c[2] * z * z * z)


class CellData(Benchmark):
    """A scalar problem with prescribed averages of the initial data on n cells."""

    def __init__(self, problem, values, bc="periodic", dx=1.0, a=0.0,
                 end_time=1.0, start_time=0.0, inflow_left=None, inflow_right=None, inside=None):
        self.problem = problem
        self._inside = Inside(len(values), inside)
        self._v = np.array(values, dtype=float)
        self._a, self._dx = a, dx
        self.domain = core.Interval(a, a + dx * len(self._v))
        self._boundary_conditions = bc
        self.end_time, self.start_time = end_time, start_time
        self._il, self._ir = inflow_left, inflow_right

    def _cell(self, x):
        return int(min(len(self._v) - 1, max(0, np.floor((x - self._a) / self._dx))))

    def _local(self, x):
        return (x - self._a) / self._dx - self._cell(x)

    def initial_data(self, x):
        return float(self._v[self._cell(x)]) + self._inside(self._cell(x), self._local(x), 0)

    def inflow_left(self, t):
        if self._il is None:
            raise AttributeError("no inflow")
        return self._il(t)

    def inflow_right(self, t):
        if self._ir is None:
            raise AttributeError("no inflow")
        return self._ir(t)


class NodeData(CellData):
    """A scalar problem with prescribed values at the n*p nodes of a periodic mesh."""

    def __init__(self, problem, values, cells, **kw):
        dx = kw.pop("dx", 1.0)
        p = len(values) // cells
        super().__init__(problem, values, dx=dx / p, **kw)

    def _cell(self, x):
        return int(round((x - self._a) / self._dx)) % len(self._v)


class SweCellData(swe.ShallowWaterBenchmark):
    """A shallow water problem with prescribed cell averages of height, discharge, bottom."""

    problem = "shallow_water"

    def __init__(self, values, bottom=None, bc="periodic", dx=1.0, a=0.0, end_time=1.0,
                 start_time=0.0, g=None, inflow_left=None, inflow_right=None, inside=None):
        self._inside = Inside(len(values), inside)
        self._v = np.array(values, dtype=float)
        self._b = np.zeros(len(self._v)) if bottom is None else np.array(bottom, dtype=float)
        self._a, self._dx = a, dx
        self.domain = core.Interval(a, a + dx * len(self._v))
        self._boundary_conditions = bc
        self.end_time, self.start_time = end_time, start_time
        if g is not None:
            self.gravitational_acceleration = g
        self._il, self._ir = inflow_left, inflow_right

    def _cell(self, x):
        return int(min(len(self._v) - 1, max(0, np.floor((x - self._a) / self._dx))))

    def _local(self, x):
        return (x - self._a) / self._dx - self._cell(x)

    def initial_data(self, x):
        i, z = self._cell(x), self._local(x)
        return self._v[i] + np.array([self._inside(i, z, 0), self._inside(i, z, 1)])

    def bathymetry(self, x):
        return float(self._b[self._cell(x)]) + self._inside(self._cell(x), self._local(x), 2)

    def inflow_left(self, t):
        if self._il is None:
            raise AttributeError("no inflow")
        return self._il(t)

    def inflow_right(self, t):
        if self._ir is None:
            raise AttributeError("no inflow")
        return self._ir(t)


SCALAR_FV = {
    "llf": fv_scalar_solver.LaxFriedrichsSolver,
    "central": fv_scalar_solver.CentralFluxSolver,
    "mcl-fv": fv_scalar_solver.MCLSolver,
}
SWE = {
    "llf": swe_solver.LaxFriedrichsSolver,
    "lw": swe_solver.LaxWendroffSolver,
    "low-order": swe_solver.LowOrderSolver,
    "central": swe_solver.CentralFluxSolver,
    "es": swe_solver.EnergyStableSolver,
    "es1": swe_solver.FirstOrderDiffusiveEnergyStableSolver,
    "mcl": swe_solver.MCLSolver,
    "antidiffusion": swe_solver.LinearAntidiffusiveSolver,
    "reduced-llf": swe_solver.ReducedLaxFriedrichsSolver,
    "reduced-llf-2": swe_solver.ReducedLaxFriedrichs2Solver,
    "coarse": swe_solver.CoarseSolver,
}
FE = {
    "cg": fe_solver.ContinuousGalerkinSolver,
    "cg-low": fe_solver.LowOrderContinuousGalerkinSolver,
    "mcl-fem": fe_solver.MCLSolver,
}


def run(cls, bench, steps=1, dt=None, **kw):
    """Run STEPS steps of size dt through the public solve(); returns the solver."""
    n = kw.get("mesh_size")
    dx = (bench.domain.b - bench.domain.a) / n
    if dt is not None:
        kw["cfl_number"] = dt / dx
        bench.end_time = bench.start_time + dt * steps
    s = cls(bench, save_history=True, **kw)
    s.solve(disable=True, leave=False)
    return s
