"""C01: totals of conserved quantities along whole runs."""
import numpy as np

import gen
import networks
import qspec
import runs
from env import core
from schemes import all_schemes, Scheme, GETTERS

LEVEL = "exploration"
RULE = ("every event is one run, its initial state or one recorded step, or one right-hand side; the totals of "
        "consecutive states are compared")
ASSUMPTIONS = ["totals agree within 2^-44 relative to the number of unknowns times one plus their size"]


def one(rec, case):
    case.unit(len(rec.traces))
    with rec.trace("totals of " + case.label + " " + str(len(rec.traces))) as t:
        solver = runs.solve(case.solver(), case.fragile)
        runs.records(t, case, solver)


def drive(rec):
    r = gen.rng(rec.seed, "C01")
    for k in range(rec.n(60, 500)):
        one(rec, runs.scalar_case(r, k, periodic=True))
    for k in range(rec.n(36, 240)):
        one(rec, runs.fem_case(r, k))
    for k in range(rec.n(16, 80)):  # nearly constant states: what changes slowly counts, too
        size = 10.0 ** -(3 + k % 8)
        c = runs.scalar_case(r, k, periodic=True, n=8)
        c.u = float(r.choice([-0.75, 0.25, 1.0])) + size * r.uniform(-1, 1, 8)
        one(rec, c)
        c = runs.swe_case(r, k, Scheme(["llf", "low-order", "central", "es1"][gen.mix(k, 4)]), bc="periodic", bottom=False, n=8)
        c.u = np.array([1.25, 0.25]) + size * r.uniform(-1, 1, (8, 2))
        one(rec, c)
    schemes = all_schemes()
    for k in range(rec.n(1, 3) * 6):
        one(rec, runs.large(r, k, runs.LARGE[k % 6], **({"periodic": True} if k % 6 < 3 else {})))
        one(rec, runs.large(r, k, schemes[gen.mix(k, len(schemes), "large")], bc="periodic"))
    robust = ("llf", "low-order", "mcl")
    for k in range(rec.n(3, 20) * len(schemes)):
        s, j = schemes[k % len(schemes)], k // len(schemes)
        one(rec, runs.swe_case(r, j + k, s, bc="periodic", bottom=bool(gen.mix(j + k, 3)), extreme=s.name in robust and j % 2 == 1,
                               cfl=0.1 if s.name in robust and j % 2 == 1 else None))
        if j % 2 == 0:
            one(rec, runs.swe_case(r, j + k, s, bc=("wall", "wall"), bottom=bool(r.integers(0, 4))))
    for k in range(rec.n(12, 60)):
        c = runs.swe_case(r, k, Scheme("llf"), bc=["periodic", ("wall", "wall")][gen.mix(k, 2)], n=6, method="heun")
        c.cls, c.deg, c.options = runs.CLASSES["swe"]["coarse"], [1, 2, 3][gen.mix(k, 3)], {"coarsening_degree": [1, 2, 3][gen.mix(k, 3)]}
        one(rec, c)
    for k in range(rec.n(8, 40)):
        one(rec, networks.reduced_case(r, k, bc="periodic"))
    for k in range(rec.n(10, 60)):
        one(rec, networks.stub_case(r, k, bc="periodic"))


def models(rec):
    out = []
    for name, file, invariants, text in [
            ('model_scalar', 'model_fv.qnt', ['conserved'], 'model_scalar: schemes conserve'),
            ('model_water', 'model_fv.qnt', ['conservedHeight', 'conservedDischarge'], 'model_water: schemes conserve'),
            ('model_fem', 'model_fem.qnt', ['conserved'], 'model_fem: schemes conserve'),
    ]:
        n = rec.n(300, 4000)
        ok, states, log = qspec.model_run(name, file, invariants, 4, n, rec.seed)
        out.append(dict(name=text, ok=ok, states=states, transitions=states, text=log))
    return out
