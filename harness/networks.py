"""Network corrected solvers: the real ones, and ones with a stand-in network."""
import contextlib
import io

import numpy as np

import gen
import runs
from env import swe, swe_solver, SWE
from schemes import Scheme, GETTERS


class Stub:
    """A stand-in for a network: a known affine-quadratic function of the inputs."""

    def __init__(self, r, inputs=8, scale=0.05):
        self.w = r.uniform(-scale, scale, (inputs, 2))
        self.v = r.uniform(-scale, scale, (inputs, 2))
        self.loads, self.seen = 0, []

    def load_params(self, *args, **kwargs):
        self.loads += 1

    def predict(self, x):
        x = np.asarray(x, float)
        self.seen.append(x.copy())
        return x @ self.w + (x * x) @ self.v


def stub_solver(stub, getter=None, inputs=4):
    class Corrected(swe.Solver):
        flux_getter = swe_solver.ReducedFluxGetter(inputs, stub, getter() if isinstance(getter, type) else getter)

    return Corrected


def quietly(f, *args, **kw):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return f(*args, **kw)


def reduced_case(r, k, **kw):
    case = runs.swe_case(r, k, Scheme("llf"), method=["euler", "heun", "ssp3"][gen.mix(k, 3)], bottom=False, **kw)
    case.cls, case.name = SWE[["reduced-llf", "reduced-llf-2"][gen.mix(k, 2)]], "reduced"
    return case


def stub_case(r, k, **kw):
    sub = ["", "llf", "central", "es", "low-order", "es1"][gen.mix(k, 6)]
    case = runs.swe_case(r, k, Scheme(sub or "llf"), method=["euler", "heun", "ssp3"][gen.mix(k, 3)], **kw)
    case.stub = Stub(r)
    case.cls = stub_solver(case.stub, GETTERS[sub] if sub else None)
    case.name, case.sub, case.options = "reduced", sub or "llf", {}
    return case
