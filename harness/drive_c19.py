"""C19: pairs of runs, the second one from translated or mirrored data."""
import copy

import numpy as np

import gen
import networks
import qspec
import runs
from schemes import all_schemes, Scheme

LEVEL = "exploration"
RULE = "every event is one of two runs or one of their states; states of the second run are compared with images of the first"
ASSUMPTIONS = ["states agree within 2^-26 relative to one plus the largest value (networks: 2^-14)"]


def pair(rec, r, case, kind):
    """Run a case and its image."""
    case.unit(len(rec.traces))
    other = copy.copy(case)
    k = 0
    if kind == "shift":
        k = int(r.integers(1, case.n // case.deg)) * case.deg if case.n > case.deg else 0
        other.u = np.roll(case.u, k * case.p, axis=0)
    elif case.family == "swe":
        other.u = case.u[::-1] * [1, -1]
        other.bottom = case.bottom[::-1]
        other.bc = case.bc if isinstance(case.bc, str) else case.bc[::-1]
        flip = lambda i: None if i is None else [i[0], -i[1], i[2], -i[3]]
        other.inl, other.inr = flip(case.inr), flip(case.inl)
    else:
        other.u = -(np.roll(case.u[::-1], 1) if case.family == "fem" else case.u[::-1])
        other.bc = case.bc if isinstance(case.bc, str) else case.bc[::-1]
        flip = lambda i: None if i is None else [-i[0], 0, -i[2], 0]
        other.inl, other.inr = flip(case.inr), flip(case.inl)
    with rec.trace("%s of %s %d" % (kind, case.label, len(rec.traces))) as t:
        first, second = runs.solve(case.solver(), case.fragile), runs.solve(other.solver(), case.fragile)
        if first.broken or second.broken:
            return
        runs.records(t, case, first)
        t.ev("image", [kind], [k])
        runs.records(t, other, second)


def drive(rec):
    r = gen.rng(rec.seed, "C19")
    for k in range(rec.n(50, 400)):
        pair(rec, r, runs.scalar_case(r, k, periodic=True), "shift")
        c = runs.scalar_case(r, k)
        c.problem = "burgers"
        pair(rec, r, c, "mirror")
    for k in range(rec.n(24, 160)):
        pair(rec, r, runs.fem_case(r, k), "shift")
        c = runs.fem_case(r, k + 1)
        if c.problem == "advection":
            c.problem = "burgers"
            c.stop = c.start + 0.3 * (c.stop - c.start)
        pair(rec, r, c, "mirror")
    schemes = all_schemes()
    robust = ("llf", "low-order", "mcl")
    for k in range(rec.n(3, 20) * len(schemes)):
        s, j = schemes[k % len(schemes)], k // len(schemes)
        wild = dict(extreme=True, cfl=0.1) if s.name in robust and j % 2 else {}
        pair(rec, r, runs.swe_case(r, k, s, bc="periodic", bottom=False, **wild), "shift")
        pair(rec, r, runs.swe_case(r, j + k, s, **wild), "mirror")
    for k in range(rec.n(3, 9)):
        c = runs.large(r, k, runs.LARGE[k % 3], periodic=True)
        pair(rec, r, c, "shift")
        c = runs.large(r, k, runs.LARGE[k % 3])
        c.problem = "burgers"
        pair(rec, r, c, "mirror")
    for k in range(rec.n(4, 12)):
        pair(rec, r, runs.large(r, k, schemes[gen.mix(k, len(schemes), "large")], bc="periodic", bottom=False), "shift")
        pair(rec, r, runs.large(r, k, schemes[gen.mix(k, len(schemes), "large")]), "mirror")
    for k in range(rec.n(8, 40)):
        c = runs.swe_case(r, k, Scheme("llf"), n=6, bottom=False, method="heun", bc="periodic" if k % 2 else None)
        c.cls, c.deg, c.options = runs.CLASSES["swe"]["coarse"], [1, 2, 3][gen.mix(k, 3)], {"coarsening_degree": [1, 2, 3][gen.mix(k, 3)]}
        pair(rec, r, c, "shift" if k % 2 else "mirror")
    for k in range(rec.n(6, 30)):
        pair(rec, r, networks.reduced_case(r, k, bc="periodic"), "shift")
    for k in range(rec.n(8, 40)):
        pair(rec, r, networks.stub_case(r, k, bc="periodic", bottom=False), "shift")


def models(rec):
    out = []
    for name, file, invariants, text in [
            ('model_scalar', 'model_fv.qnt', ['shifted', 'mirrored'], 'model_scalar: images of the data'),
            ('model_water', 'model_fv.qnt', ['shifted', 'mirrored'], 'model_water: images of the data'),
            ('model_fem', 'model_fem.qnt', ['shifted', 'mirrored'], 'model_fem: images of the data'),
    ]:
        n = rec.n(300, 4000)
        ok, states, log = qspec.model_run(name, file, invariants, 4, n, rec.seed)
        out.append(dict(name=text, ok=ok, states=states, transitions=states, text=log))
    return out
