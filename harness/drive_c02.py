"""C02: discrete maximum principles, whole runs under the CFL restriction."""
import numpy as np

import gen
import qspec
import runs

LEVEL = "exploration"
RULE = ("every event is one run or one of its steps; the specification decides whether the step size is admissible and "
        "among which old values each new value has to lie")
ASSUMPTIONS = ["bounds hold up to 2^-40 relative to one plus the largest value"]


def one(rec, case):
    case.unit(len(rec.traces))
    with rec.trace("bounds of " + case.label + " " + str(len(rec.traces))) as t:
        solver = runs.solve(case.solver())
        runs.records(t, case, solver)


def drive(rec):
    r = gen.rng(rec.seed, "C02")
    for k in range(rec.n(220, 2000)):
        case = runs.scalar_case(r, k, name=["llf", "mcl-fv"][gen.mix(k, 2)], method=["euler", "heun", "ssp3"][gen.mix(k // 2, 3)],
                                n=int(r.integers(3, 10)))
        data = [np.max(np.abs(case.u))]
        for i in (case.inl, case.inr):
            if i is not None:  # inflow stays bounded by two during the run
                i[0], i[2] = float(r.uniform(-1, 1)), float(r.uniform(-0.2, 0.2))
                data.append(2.0)
        c = max(1.0 if case.problem == "advection" else max(data), 1e-3)
        case.cfl = float(r.choice([0.5, 0.5, 0.25, 0.49])) / c * (1 - 1e-12)
        case.start = float(r.choice([0.0, 0.5]))
        case.stop = case.start + min(case.cfl * case.dx * int(r.integers(1, 5)), 3.0)
        one(rec, case)
    for k in range(rec.n(100, 700)):
        case = runs.fem_case(r, k, name=["cg-low", "mcl-fem"][gen.mix(k, 2)], method=["euler", "heun", "ssp3"][gen.mix(k // 2, 3)],
                             p=1 + gen.mix(k // 6, 3), n=int(r.integers(3, 7 if gen.mix(k // 6, 3) == 0 else 4)))
        case.stepping = "adaptive"
        case.cfl = 1.0 if case.method == "euler" or case.problem == "advection" else 0.5
        if case.problem == "burgers" and case.method != "euler":
            # the optimal step of the state may be larger than the one of its largest value
            case.cfl = 0.25
        one(rec, case)
    for k in range(rec.n(4, 12)):  # large meshes
        case = runs.large(r, k, runs.LARGE[[0, 2, 4, 5][k % 4]])
        if k % 4 < 2:
            case.inl, case.inr = [None if i is None else [0.5, 0, 0.1, 0] for i in (case.inl, case.inr)]
            case.cfl, case.start = 0.5 * (1 - 1e-12), 0.0
            case.stop = 1.5 * case.cfl * case.dx
        else:
            case.stepping, case.cfl, case.method, case.explicit_method = "adaptive", 1.0, "euler", True
        one(rec, case)
    for k in range(rec.n(60, 500)):  # plateaus on finer meshes, limited by one side only
        p = 1 + gen.mix(k, 3)
        case = runs.fem_case(r, k, name="mcl-fem" if gen.mix(k, 4) else "cg-low", method="euler", p=p,
                             n=int(r.integers(5, 13 if p == 1 else 9 if p == 2 else 7)))
        if gen.mix(k, 2, "plateau"):
            levels = [[0.0, 0.3, 1.0, 2.0], [-1.0, 0.0, 1.0], [0.5, 1.0]][gen.mix(k, 3, "levels")]
            case.u = r.choice(levels, case.n * p) + 0.0
            if np.max(np.abs(case.u)) == 0:
                case.u[0] = 0.5
        case.stepping, case.cfl = "adaptive", 1.0
        case.start = 0.0
        speed = 1.0 if case.problem == "advection" else np.max(np.abs(case.u))
        case.stop = case.dx / (2 * p * p * speed) * 1.5
        one(rec, case)


def models(rec):
    out = []
    for name, file, invariants, text in [
            ('model_scalar', 'model_fv.qnt', ['bounded'], 'model_scalar: new values within their neighbourhoods'),
            ('model_fem', 'model_fem.qnt', ['bounded'], 'model_fem: new values within their neighbourhoods'),
    ]:
        n = rec.n(300, 4000)
        ok, states, log = qspec.model_run(name, file, invariants, 4, n, rec.seed)
        out.append(dict(name=text, ok=ok, states=states, transitions=states, text=log))
    return out
