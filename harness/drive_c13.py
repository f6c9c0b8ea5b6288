"""C13: node fluxes, wave speeds, Riemann solver and flux wrappers."""
import numpy as np

import qspec

import gen
from env import core, swe, finite_volume, fvs, SCALAR_FV, SWE, swe_solver, SweCellData, CellData
from schemes import Scheme, all_schemes, mcl_schemes, plain_schemes, params

LEVEL = "exploration"
RULE = ("every event is one call of a flux, wave speed, Riemann solver or wrapper with random, structured, dry, "
        "equal or flat data; distinct payloads are counted and each is judged by at least one clause")
ASSUMPTIONS = ["agreement means 2^-28 relative to one plus the largest entry of the vector",
               "heights between 1e-13 and 0 do not occur except exactly 0 and near the threshold 1e-15"]


class StubFlux(finite_volume.NumericalFlux):
    """Returns given node fluxes and remembers its inputs."""

    def __init__(self, dimension, left, right):
        self.input_dimension, self.left, self.right, self.inputs = dimension, left, right, None

    def __call__(self, *values):
        self.inputs = [np.array(v, copy=True) for v in values]
        return self.left.copy(), self.right.copy()


def shallow(rec, r):
    for s in all_schemes():
        for k in range(rec.n(10, 60)):
            n = int(r.integers(3, 8)) if k != 7 else int(r.integers(520, 650))
            bc = ["periodic", ("outflow", "outflow"), ("wall", "wall"), ("wall", "outflow")][gen.mix(k, 4)]
            g = [9.812, 1.0, 4.0, 2.5][int(r.integers(0, 4))]
            dry = 0.3 if k % 5 == 4 and s.name != "lw" else 0.0
            u = gen.swe_data(r, n + 2, dry=dry)
            if k % 3 == 0:  # equal neighbours
                j = r.integers(0, n + 1)
                u[j + 1] = u[j]
            if k % 2 and s.name != "lw":
                b = gen.bottom(r, n)
            else:
                b = np.full(n, float(r.choice([0.0, 0.25])))
            small = k % 10 == 6 and s.name not in ("lw", "antidiffusion")
            if k == 8:  # large units of height and discharge
                u, b = u * [1e6, 1e9], b * 1e6
            dx = float(r.choice([0.5, 1.0, 0.125]))
            # powers of four: all rounding is the same
            in_units = np.array([2.0**-24, 2.0**-36]) if small else np.ones(2)
            out_units = np.array([2.0**-36, 2.0**-48]) if small else np.ones(2)
            bench = SweCellData(u[1:-1] * in_units, bottom=b * in_units[0], bc=bc, dx=dx, g=g)
            with rec.trace("node flux %s %d" % (s.label, k)) as t:
                space = finite_volume.FiniteVolumeSpace(core.UniformMesh(bench.domain, n))
                explicit = gen.mix(k, 4) == 3
                dt = 0.0
                if s.name == "antidiffusion":
                    solver = SWE["antidiffusion"](bench, mesh_size=n, **s.kw)
                    flux = solver.flux_getter(bench, space, b) if explicit else solver.flux_getter(bench, space)
                elif s.name == "lw":
                    dt = float(r.choice([0.0, 0.01, 0.1]))
                    flux = swe_solver.LaxWendroffFlux(dx, g)
                    flux.set_time_step(dt)
                else:
                    flux = s.flux(bench, space, b * in_units[0] if explicit else None)
                for again in range(2):  # fluxes keep intermediate results: call twice
                    fl, fr = [x / out_units for x in flux(u[:-1] * in_units, u[1:] * in_units)]
                    t.ev("nodes", [s.name, s.sub, bc if isinstance(bc, str) else "open"],
                         params(s, g, dx, dt), u[:, 0], u[:, 1], b, fl[:, 0], fl[:, 1], fr[:, 0], fr[:, 1],
                         note="%s %s g=%g dx=%g u=%s b=%s" % (s.label, bc, g, dx, u.tolist(), b.tolist()))
                    u = u[::-1].copy()


def scalars(rec, r):
    for name in SCALAR_FV:
        for problem in ("advection", "burgers"):
            for k in range(rec.n(24, 150)):
                n = int(r.integers(2, 9)) if k not in (4, 7) else int(r.integers(520, 650))
                bc = "periodic" if k % 2 else ("outflow", "outflow")
                u = gen.scalar_data(r, n, scale=float(r.choice([1.0, 3.0])))
                unit = 2.0 ** [0, 0, -30, 0, 0, -44][gen.mix(k, 6, "unit")]
                bench = CellData(problem, u * unit, bc=bc)
                with rec.trace("scalar flux %s %s %d" % (name, problem, k)) as t:
                    solver = SCALAR_FV[name](bench, mesh_size=n)
                    space = solver.solution.space
                    flux = solver.flux_getter(bench, space)
                    p = np.array([u[-1], *u, u[0]]) if bc == "periodic" else np.array([u[0], *u, u[-1]])
                    fl, fr = [x / (unit if problem == "advection" else unit * unit) for x in flux(p[:-1] * unit, p[1:] * unit)]
                    t.ev("scalar", [name, problem, bc if isinstance(bc, str) else "open"], p, fl, fr,
                         note="%s %s %s %s" % (name, problem, bc, u.tolist()))


def points(rec, r):
    for k in range(rec.n(30, 300)):
        n = int(r.integers(1, 8))
        g = float(r.choice([9.812, 1.0, 3.0]))
        u, w = gen.swe_data(r, n, dry=0.2 if k % 2 else 0), gen.swe_data(r, n, dry=0.2 if k % 3 else 0)
        if k % 7 == 0:
            u[0, 0] = float(r.choice([1e-13, 1e-17, 3e-16, 1e-12]))
            u[0, 1] = u[0, 0] * 0.5
        if k % 6 == 5:  # other units of height and discharge
            unit = [[1e6, 1e9], [1e-4, 1e-6], [1.0, 2000.0]][gen.mix(k // 6, 3)]
            u, w = u * unit, w * unit
        with rec.trace("physical flux %d" % k) as t:
            f = swe.Flux(g)(u.copy())
            t.ev("physical", [], [g], u[:, 0], u[:, 1], f[:, 0], f[:, 1], note=str(u.tolist()))
            if u[0, 0] > 0:
                f0 = swe.Flux(g)(np.array(u[0]))
                t.ev("physical", [], [g], [u[0, 0]], [u[0, 1]], [f0[0]], [f0[1]], note="single " + str(u[0]))
            keep = u.copy()
            swe.Flux(g)(u)
            t.ev("physical", [], [g], keep[:, 0], keep[:, 1], f[:, 0], f[:, 1])
            t.ev("helper", ["velocity"], [g], u[:, 0], u[:, 1], swe.get_velocity(u), note=str(u.tolist()))
            b = gen.bottom(r, n) * 2.0 ** [0, -14][gen.mix(k, 2, "low")]
            e = swe.Entropy(g)(u, b)
            t.ev("helper", ["entropy"], [g], u[:, 0], u[:, 1], b, e[:, 0], e[:, 1])
            e = swe.Entropy(g)(u)
            t.ev("helper", ["entropy"], [g], u[:, 0], u[:, 1], 0 * b, e[:, 0], e[:, 1])
            t.ev("helper", ["potential"], [g], u[:, 0], u[:, 1], swe.Potential(g)(u))
            db = r.uniform(-1, 1, n) * r.integers(0, 2, n)
            t.ev("helper", ["fix"], [g], u[:, 0], db, swe.get_height_positivity_fix(u[:, 0], db))
            eps = float(r.choice([0.25, 0.5, 1e-15]))
            z = swe.nullify(u, eps)
            t.ev("helper", ["nullify"], [g, eps], u[:, 0], u[:, 1], z[:, 0], z[:, 1])
            x = np.full(n, 0.5) + (0 if k % 2 else r.choice([1e-3, 1e-16, 0.4], n))
            t.ev("helper", ["flat"], [g, 1e-2], x, x, [int(bool(swe.is_constant(x, 1e-2)))])
        with rec.trace("wave speeds %d" % k) as t:
            a, c = swe.MaximumWaveSpeed(g)(u, w), swe.WaveSpeed(g)(u, w)
            t.ev("speeds", [], [g], u[:, 0], u[:, 1], w[:, 0], w[:, 1], a[0], a[1], c[0], c[1],
                 note="%s %s" % (u.tolist(), w.tolist()))
        with rec.trace("scalar wave speeds %d" % k) as t:
            x, y = gen.scalar_data(r, n + 1), gen.scalar_data(r, n + 1)
            for p in ("advection", "burgers"):
                s = fvs.get_wave_speed(p)(x, y)
                t.ev("scalar-speeds", [p], x, y, s[0], s[1], fvs.get_flux(p)(x), note="%s %s %s" % (p, x, y))
        with rec.trace("Riemann solver %d" % k) as t:
            m = n + 1
            x, y = r.uniform(-2, 2, m), r.uniform(-2, 2, m)
            sl, sr = -r.uniform(0, 3, m), r.uniform(0, 3, m)
            if k % 2:
                sl[0] = 0
            if k % 4 == 3:
                sr[0] = 0
                x[0] = y[0]
            for f in (lambda q: q, lambda q: q**2 / 2, lambda q: q**3):
                rs = core.RiemannSolver(f, lambda a, b: (sl.copy(), sr.copy()))
                flux, state = rs.solve(x, y)
                t.ev("riemann", [], f(x), f(y), x, y, sl, sr, flux, state, note="%s %s" % (x, y))
            rs = swe.RiemannSolver(g)
            ok = (u[:, 0] > 0) | (w[:, 0] > 0)
            flux, state = rs.solve(u[ok], w[ok])
            fu, fw = swe.Flux(g)(u[ok]), swe.Flux(g)(w[ok])
            for c in (0, 1):
                t.ev("riemann", [], fu[:, c], fw[:, c], u[ok][:, c], w[ok][:, c], rs.wave_speed_left,
                     rs.wave_speed_right, flux[:, c], state[:, c], note="shallow water %s %s" % (u, w))
            rs = swe.RiemannSolver(g, wave_speed=swe.WaveSpeed(g))
            flux, state = rs.solve(u[ok], w[ok])
            for c in (0, 1):
                t.ev("riemann", [], fu[:, c], fw[:, c], u[ok][:, c], w[ok][:, c], rs.wave_speed_left,
                     rs.wave_speed_right, flux[:, c], state[:, c], note="HLL %s %s" % (u, w))
        with rec.trace("negative heights %d" % k) as t:
            v = u.copy()
            if k % 3:
                v[r.integers(0, n), 0] = -float(r.choice([1e-3, 1.0, 1e-10]))
            for what, call in [("flux", lambda: swe.Flux(g)(v)), ("flux of default gravity", lambda: swe.Flux()(v)),
                               ("Riemann solver", lambda: swe.RiemannSolver(g).solve(v, v)),
                               ("central flux", lambda: finite_volume.CentralFlux(swe.Flux(g))(v, w))]:
                try:
                    call()
                    res = "accepted"
                except ValueError:
                    res = "rejected"
                t.ev("rejection", [res, what], v[:, 0], note="%s %s" % (what, v.tolist()))


def wrappers(rec, r):
    for k in range(rec.n(40, 200)):
        with rec.trace("wrappers %d" % k) as t:
            n = 2 * int(r.integers(1, 5))
            d = 2 * int(r.integers(1, n // 2 + 1))
            values = [r.uniform(-1, 1) for _ in range(n)]
            out = finite_volume.get_required_values(d, *values)
            t.ev("required", [], [d, n], *[[x] for x in values], *[[x] for x in out])
            seen = []

            class Probe(finite_volume.NumericalFlux):
                input_dimension = d

                def __call__(self, *v):
                    seen.append(v)
                    return -v[0], v[0]

            finite_volume.NumericalFluxWithArbitraryInput(Probe())(*[np.array([x]) for x in values])
            t.ev("required", [], [d, n], *[[x] for x in values], *[x for x in seen[0]])
            m = int(r.integers(2, 6))
            vs = [r.uniform(-1, 1, m) for _ in range(int(r.integers(2, 5)))]
            t.ev("dofs", [], *vs, finite_volume.get_dof_vector(*vs))
            a, b = [r.uniform(-1, 1, (2, m, 2)) for _ in range(2)]
            d1, d2 = [int(2 * r.integers(1, 4)) for _ in range(2)]
            f1, f2 = StubFlux(d1, *a), StubFlux(d2, *b)
            c = finite_volume.CorrectedNumericalFlux(f1, f2)
            ins = [r.uniform(-1, 1, (m, 2)) for _ in range(max(d1, d2) + 2 * int(r.integers(0, 2)))]
            out = c(*ins)
            for i in (0, 1):
                t.ev("sum", [], a[0][:, i], a[1][:, i], b[0][:, i], b[1][:, i], out[0][:, i], out[1][:, i])
            t.ev("required", [], [c.input_dimension, c.input_dimension], *[[0.0]] * (2 * c.input_dimension))
            t.ev("required", [], [max(d1, d2), c.input_dimension], *[[0.0]] * (max(d1, d2) + c.input_dimension))
            for f in (f1, f2):
                t.ev("required", [], [2 * f.input_dimension, 2 * len(ins)], *[x for q in ins for x in q.T],
                     *[x for q in f.inputs for x in q.T])
            gamma, dx = float(r.choice([0.0, 0.1, -1.0, 2.0])), float(r.choice([0.1, 1.0]))
            x, y = r.uniform(-1, 1, m), r.uniform(-1, 1, m)
            unit = 2.0 ** [0, -30, -46, 30][gen.mix(k, 4, "unit")]
            fl, fr = [z / unit for z in finite_volume.LinearAntidiffusiveFlux(gamma, dx)(x * unit, y * unit)]
            t.ev("antidiffusive", [], [gamma, dx], x, y, fl, fr)
            fl, fr = finite_volume.LinearAntidiffusiveFlux(gamma, dx * unit)(x * unit, y * unit)
            t.ev("antidiffusive", [], [gamma, dx], x, y, fl, fr)
            g = float(r.choice([9.812, 1.0]))
            bot = gen.bottom(r, m - 1) if k % 3 else np.full(m - 1, 0.5)
            stub = StubFlux(2, *a)
            L, R = gen.swe_data(r, m), gen.swe_data(r, m)
            fl, fr = swe.NumericalFlux(stub, g, bathymetry=bot)(L, R)
            t.ev("sourced", [], [g], bot, L[:, 0], R[:, 0], a[0][:, 0], a[0][:, 1], a[1][:, 0], a[1][:, 1],
                 fl[:, 0], fl[:, 1], fr[:, 0], fr[:, 1], note="bottom %s" % bot)
            stub4 = StubFlux(4, *a)
            fl, fr = swe.NumericalFlux(stub4, g, bathymetry=bot)(gen.swe_data(r, m), L, R, gen.swe_data(r, m))
            t.ev("sourced", [], [g], bot, L[:, 0], R[:, 0], a[0][:, 0], a[0][:, 1], a[1][:, 0], a[1][:, 1],
                 fl[:, 0], fl[:, 1], fr[:, 0], fr[:, 1], note="bottom %s" % bot)
            for nothing in (None, 0.0, 1.5):
                fl, fr = swe.NumericalFlux(stub, g, bathymetry=nothing)(L, R)
                t.ev("sourced", [], [g], np.zeros(m - 1), L[:, 0], R[:, 0], a[0][:, 0], a[0][:, 1], a[1][:, 0], a[1][:, 1],
                     fl[:, 0], fl[:, 1], fr[:, 0], fr[:, 1], note="no bottom")
        with rec.trace("flux history %d" % k) as t:
            class Replaying(finite_volume.NumericalFlux):
                input_dimension = 2

                def __call__(self, *v):
                    return -v[0] * v[1], v[0] * v[1]

            h = finite_volume.NumericalFluxWithHistory(Replaying())
            reuse = np.zeros((3, 2))
            for call in range(int(r.integers(1, 6))):
                reuse[:] = r.uniform(-1, 1, (3, 2))
                out = h(reuse, reuse + 1)
                t.ev("history", [], out[0], out[1], *[x for x in h.flux_left_history],
                     *[x for x in h.flux_right_history])
        if k == 1:
            with rec.trace("long flux history %d" % k) as t:
                h = finite_volume.NumericalFluxWithHistory(Replaying())
                reuse, out = np.zeros((1, 1)), []
                for call in range(int(r.integers(8200, 8400))):
                    reuse[:] = r.uniform(-1, 1)
                    out.append([float(f[0, 0]) for f in h(reuse, reuse + 1)])
                t.ev("manyCalls", [], [len(h.flux_left_history)], [len(h.flux_right_history)], [o[0] for o in out],
                     [o[1] for o in out], np.ravel(h.flux_left_history), np.ravel(h.flux_right_history),
                     note="%d calls" % len(out))
        with rec.trace("right-hand side %d" % k) as t:
            m = int(r.integers(3, 7))
            rad = int(r.integers(1, 3))
            conds = [("periodic",), ("outflow", "inflow"), ("inflow", "outflow"), ("outflow", "outflow")][gen.mix(k, 4)]
            il, ir = 0.5, -0.75
            bc = core.get_boundary_conditions(*conds, radius=rad, inflow_left=lambda t: il * t, inflow_right=lambda t: ir * t)
            u = r.uniform(-1, 1, m)
            stub = StubFlux(2 * rad, r.uniform(-1, 1, m + 1), r.uniform(-1, 1, m + 1))
            dx, time = float(r.choice([0.5, 2.0, 0.1])), float(r.choice([1.0, 2.0]))
            out = finite_volume.NumericalFluxDependentRightHandSide(stub, dx, bc)(time, u)
            c = conds * 2
            t.ev("rhs", [c[0], c[1]], [dx, rad], u, [il * time, ir * time], stub.left, stub.right, out, *stub.inputs)
        with rec.trace("optimal step %d" % k) as t:
            m = int(r.integers(2, 6))
            u = gen.swe_data(r, m)
            conds = [("periodic",), ("wall", "outflow")][gen.mix(k, 2)]
            dx, g = float(r.choice([0.5, 2.0])), 2.0
            step = finite_volume.OptimalTimeStep(swe.RiemannSolver(g), swe.get_boundary_conditions(*conds), dx)(0.0, u)
            c = conds * 2
            t.ev("optimal", [c[0], c[1]], [g, dx], u[:, 0], u[:, 1], [step])


def drive(rec):
    r = gen.rng(rec.seed, "C13")
    shallow(rec, r)
    scalars(rec, r)
    points(rec, r)
    wrappers(rec, r)


def models(rec):
    out = []
    for name, invariants, text in [('model_scalar', ['limits'], 'model_scalar: limits of the limiter')]:
        n = rec.n(300, 4000)
        ok, states, log = qspec.model_run(name, "model_fv.qnt", invariants, 4, n, rec.seed)
        out.append(dict(name=text, ok=ok, states=states, transitions=states, text=log))
    return out
