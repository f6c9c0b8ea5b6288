"""C06: heights along whole runs, and the MCL limiter node by node."""
import numpy as np

import gen
import qspec
import runs
from env import core, swe, finite_volume, swe_solver, SweCellData
from schemes import Scheme, mcl_schemes, GETTERS

LEVEL = "exploration"
RULE = ("every event is one run, one of its steps, one evaluation of the MCL flux or one height correction; the "
        "specification decides whether the step size is admissible")
ASSUMPTIONS = ["heights below -2^-40 relative to one plus the largest value count as negative",
               "states with dry cells are advanced by one Euler step"]


def one(rec, case):
    case.unit(len(rec.traces))
    with rec.trace("heights of " + case.label + " " + str(len(rec.traces))) as t:
        solver = runs.solve(case.solver(), fragile=True)
        runs.records(t, case, solver)
        if solver.broken:
            t.ev("broken", [], [min(case.cfl * case.dx, case.stop - float(case.time(solver.solution.time)))], note=case.note)


def admissible(r, case, steps, share):
    """A time step with the given share of cell width over wave speed."""
    h, q = case.u.T
    v = np.divide(2 * h * q, h**2 + np.maximum(h, 1e-15) ** 2)
    c = float(np.max(np.abs(v) + np.sqrt(case.g * h)))
    for i in (case.inl, case.inr):
        if i is not None:
            c = max(c, abs(i[1] / i[0]) + np.sqrt(case.g * i[0]))
    case.cfl = share / max(c, 1e-3)
    case.start = float(r.choice([0.0, 0.5]))
    case.stop = case.start + case.cfl * case.dx * steps


def drive(rec):
    r = gen.rng(rec.seed, "C06")
    robust = [Scheme("llf"), Scheme("low-order")] + mcl_schemes()
    for k in range(rec.n(24, 160) * len(robust)):
        s, j = robust[k % len(robust)], k // len(robust)
        dry = [0.0, 0.4, 0.0, 0.7][gen.mix(j, 4)]
        case = runs.swe_case(r, j, s, extreme=True, dry=dry, method=["euler", "heun", "ssp3"][gen.mix(j, 3, "method")] if not dry else "euler",
                             n=int(r.integers(3, 8)), bottom=bool(gen.mix(j, 3)) and s.name != "llf")
        if j % 5 == 4:  # bottoms above the water
            case.bottom = case.bottom * 10
        if case.inl is not None:
            case.inl = [0.5, 0.1, 0.0, 0.0]
        if case.inr is not None:
            case.inr = [1.5, -0.3, 0.0, 0.0]
        admissible(r, case, 1 if dry else int(r.integers(1, 5)), float(r.choice([0.49, 0.4])) if case.method == "euler" else 0.25)
        one(rec, case)
    for k in range(rec.n(4, 12)):
        s = robust[gen.mix(k, len(robust), "large")]
        case = runs.large(r, k, s, extreme=True, dry=0.3, bottom=s.name != "llf")
        case.method, case.explicit_method = "euler", True
        case.inl, case.inr = [None if i is None else [0.5, 0.1, 0.0, 0.0] for i in (case.inl, case.inr)]
        admissible(r, case, 1, 0.49)
        one(rec, case)
    for s in mcl_schemes():
        for k in range(rec.n(20, 150)):
            n = int(r.integers(3, 8))
            bc = "periodic" if k % 2 else ("outflow", "outflow")
            g = float(r.choice([9.812, 1.0, 4.0]))
            u = gen.swe_data(r, n, dry=0.3 if k % 5 == 4 else 0.0)
            if k % 7 == 0:
                u[:, 1] = 0
            b = gen.bottom(r, n, float(r.choice([0.3, 3.0]))) if k % 3 else np.zeros(n)
            with rec.trace("limiter %s %d" % (s.label, k)) as t:
                bench = SweCellData(u, bottom=b, bc=bc, g=g)
                space = finite_volume.FiniteVolumeSpace(core.UniformMesh(bench.domain, n))
                flux = s.flux(bench, space)
                p = np.array([u[-1], *u, u[0]]) if bc == "periodic" else np.array([u[0], *u, u[-1]])
                fl, fr = flux(p[:-1].copy(), p[1:].copy())
                t.ev("limiter", [s.sub, "periodic" if k % 2 else "open"], [g], p[:, 0], p[:, 1], b, fl[:, 0], fl[:, 1],
                     fr[:, 0], fr[:, 1], note="%s %s g=%g u=%s b=%s" % (s.label, bc, g, u.tolist(), b.tolist()))
    for k in range(rec.n(20, 100)):
        with rec.trace("height correction %d" % k) as t:
            h, d = r.uniform(0, 2, 6) * r.integers(0, 2, 6), r.uniform(-3, 3, 6) * r.integers(0, 2, 6)
            t.ev("fix", [], h, d, swe.get_height_positivity_fix(h, d))


def models(rec):
    out = []
    for name, invariants, text in [('model_water', ['positive'], 'model_water: heights stay nonnegative')]:
        n = rec.n(300, 4000)
        ok, states, log = qspec.model_run(name, "model_fv.qnt", invariants, 4, n, rec.seed)
        out.append(dict(name=text, ok=ok, states=states, transitions=states, text=log))
    return out
