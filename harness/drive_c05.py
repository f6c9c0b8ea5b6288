"""C05: steady states, whole runs."""
import numpy as np

import gen
import networks
import qspec
import runs
from env import core
from schemes import all_schemes, Scheme, GETTERS, ODE

LEVEL = "exploration"
RULE = "every event is a run from a steady state, or one of its records, compared with the initial state"
ASSUMPTIONS = ["states agree within 2^-36 relative to one plus the largest value (network corrected: 2^-16, single precision)",
               "the MCL solver keeps a lake at rest with its default flux"]


def one(rec, case):
    case.unit(len(rec.traces))
    with rec.trace("steady state of " + case.label + " " + str(len(rec.traces))) as t:
        solver = runs.solve(case.solver())
        runs.records(t, case, solver)


def drive(rec):
    r = gen.rng(rec.seed, "C05")
    for k in range(rec.n(16, 100)):
        case = runs.scalar_case(r, k)
        case.bc = ["periodic", ("outflow", "outflow")][gen.mix(k, 2)]
        case.inl = case.inr = None
        case.u = np.full(case.n, float(r.choice([0.0, 0.3, -1.0, r.uniform(-2, 2)])))
        one(rec, case)
    for k in range(rec.n(16, 100)):
        case = runs.fem_case(r, k)
        case.u = np.full(case.n * case.p, float(r.choice([0.5, -1.0, r.uniform(-2, 2)])))
        case.stop = case.start + case.cfl * case.dx / 8
        one(rec, case)
    schemes = all_schemes()
    for k in range(rec.n(4, 24) * len(schemes)):
        s, j = schemes[k % len(schemes)], k // len(schemes)
        case = runs.swe_case(r, k, s, bc=["periodic", ("outflow", "outflow"), ("wall", "wall"), ("wall", "outflow")][gen.mix(j, 4)],
                             bottom=False, steps=3)
        u = [r.uniform(0.2, 2), r.uniform(-1, 1) * (gen.mix(j, 4) < 2)]
        if k % 5 == 0 and s.name in ("llf", "low-order", "mcl"):
            u = [0.0, 0.0]
        case.u = np.tile(u, (case.n, 1))
        case.cfl = 0.1 / (abs(u[1]) / max(u[0], 0.1) + np.sqrt(case.g * u[0]) + 0.1)
        case.stop = case.start + 2.5 * case.cfl * case.dx
        one(rec, case)
    for k in range(rec.n(8, 24)):
        case = runs.large(r, k, runs.LARGE[gen.mix(k, 6)] if k % 2 else schemes[gen.mix(k, len(schemes), "large")],
                          **({} if k % 2 else {"bc": "periodic", "bottom": False}))
        case.bc, case.inl, case.inr = "periodic", None, None
        case.u = np.tile([1.0, 0.25], (case.n, 1)) if case.family == "swe" else np.full(len(case.u), 0.5)
        case.stop = case.start + 0.1 * case.dx * (case.cfl if case.stepping == "mesh" else 1.0)
        one(rec, case)
    for k in range(rec.n(2, 6)):
        case = runs.large(r, k, [Scheme("low-order"), Scheme("mcl", "central")][k % 2], bc=("outflow", "wall"), bottom=True)
        case.bottom = gen.bottom(r, case.n, 0.5)
        case.u = np.stack([1.25 - case.bottom, 0 * case.bottom], axis=1)
        one(rec, case)
    lakes = [Scheme("low-order"), Scheme("central"), Scheme("mcl", "central"),
             Scheme("mcl", "central", flux_getter=GETTERS["central"])]
    for k in range(rec.n(60, 400)):
        s = lakes[gen.mix(k, 4)]
        bc = [("outflow", "outflow"), ("wall", "wall"), ("wall", "outflow"), "periodic", ("outflow", "wall")][gen.mix(k, 5)]
        case = runs.swe_case(r, k, s, bc=bc, bottom=True, n=int(r.integers(3, 9)), steps=3)
        b = gen.bottom(r, case.n, float(r.choice([0.3, 0.8, 1.5])), periodic=bc == "periodic")
        if k % 3 == 0:
            b = b - 0.5
        if k % 5 == 3:  # shallow bumps high above (or below) the origin
            b = float(r.choice([1000.0, -512.0, 64.0])) + r.integers(0, 4, case.n) / 2**int(r.integers(8, 14))
            b[-1] = b[0] if bc == "periodic" else b[-1]
        level = float(np.max(b) + r.choice([0.01, 0.1, r.uniform(0.2, 2)] if abs(b[0]) < 10 else [0.5, 1.25]))
        case.u = np.stack([level - b, 0 * b], axis=1)
        case.bottom = b
        case.cfl = 0.2 / np.sqrt(case.g * np.max(level - b))
        case.stop = case.start + (1 if case.method == "rk8" else 2.5) * case.cfl * case.dx
        case.inside = (k, float(r.choice([0.1, 1.0])), [-1, 0, 1]) if k % 2 and abs(b[0]) < 10 else None
        one(rec, case)
    for k in range(rec.n(6, 30)):
        c = runs.swe_case(r, k, Scheme("llf"), bc=["periodic", ("outflow", "outflow")][gen.mix(k, 2)], n=6, method="heun", bottom=False)
        c.cls, c.deg, c.options = runs.CLASSES["swe"]["coarse"], [1, 2, 3][gen.mix(k, 3)], {"coarsening_degree": [1, 2, 3][gen.mix(k, 3)]}
        c.u = np.tile([r.uniform(0.5, 2), 0.3], (6, 1))
        one(rec, c)
    for k in range(rec.n(12, 60)):
        case = (networks.reduced_case if k % 2 else networks.stub_case)(r, k, bc=["periodic", ("outflow", "outflow")][gen.mix(k // 2, 2)],
                                                                      **({} if k % 2 else {"bottom": False}))
        case.u = np.tile([r.uniform(0.5, 2), r.uniform(-0.5, 0.5)], (case.n, 1))
        one(rec, case)


def models(rec):
    out = []
    for name, file, invariants, text in [
            ('model_scalar', 'model_fv.qnt', ['constant'], 'model_scalar: constants are kept'),
            ('model_water', 'model_fv.qnt', ['kept', 'rest', 'pool'], 'model_water: constants and lakes at rest are kept'),
            ('model_fem', 'model_fem.qnt', ['constant'], 'model_fem: constants are kept'),
    ]:
        n = rec.n(300, 4000)
        ok, states, log = qspec.model_run(name, file, invariants, 4, n, rec.seed)
        out.append(dict(name=text, ok=ok, states=states, transitions=states, text=log))
    return out
