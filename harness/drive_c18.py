"""C18: corrected, antidiffusive, network-corrected and coarse solvers."""
import numpy as np

import gen
import networks
import runs
from env import core, swe, finite_volume, swe_solver, SWE, SweCellData, benchmark  # noqa: F401
from schemes import Scheme, GETTERS, PLAIN, ODE

from finite_volume.shallow_water.solver.reduced_model import Curvature
from benchmark import shallow_water as water

LEVEL = "exploration"
RULE = ("every event is one recorded step, network request, node flux or initial state of a solver composed of a base "
        "scheme and a correction")
ASSUMPTIONS = ["stand-in networks are quadratic functions with known weights; trained (or untrained) networks are compared "
               "with the prediction of a second copy of the network",
               "network inputs are single precision: agreement within 2^-19 (stand-ins), 2^-15 (networks)"]

BCS = ["periodic", ("outflow", "outflow"), ("wall", "wall"), ("inflow", "wall"), ("wall", "outflow"), ("outflow", "inflow")]
METHODS = ["euler", "heun", "ssp3"]


def begin(t, case, stub=None, cells=0):
    s, v = case.config()
    t.ev("config", s, *v, [cells if stub is not None else 0], *([stub.w.ravel(), stub.v.ravel()] if stub is not None else [[0], [0]]),
         note=case.note)


def history(t, case, solver, fine, stub=None, cells=0, ask=True):
    """Events of a finished run."""
    begin(t, case, stub, cells)
    h = solver.solution
    times, values, steps = np.asarray(h.time_history, float), h.value_history, np.asarray(h.time_step_history, float)
    t.ev("init", [], [times[0]], case.vec(values[0]), case.vec(fine), [len(values[0])], note=case.note)
    for k in range(1, len(times)):
        if stub is not None and ask and case.method == "euler":
            t.ev("asked", [], [cells], stub.seen[k - 1].ravel(), note=case.note)
        t.ev("record", [], [times[k], steps[k - 1]], case.vec(values[k]), note="record %d of %s" % (k, case.note))
    if not getattr(solver, "broken", False):
        t.ev("end", [], [float(h.time)], note=case.note)


def base(k):
    """Base schemes: by default (empty), plain ones, compositions."""
    return ["", "llf", "central", "es", "low-order", "es1"][gen.mix(k, 6)]


# ----------------------------------------------------------------- antidiffusion
def antidiffusive(rec, r):
    for k in range(rec.n(30, 250)):
        with rec.trace("antidiffusive run %d" % k) as t:
            sub = base(k)
            gamma = [None, 0, 0.0, 0.25, -0.1, float(r.uniform(-0.3, 0.3)), 0.05][gen.mix(k, 7)]
            options = {"flux_getter": GETTERS[sub]} if sub else {}
            if gamma is not None:
                options["gamma"] = gamma
            s = Scheme("antidiffusion", sub or "llf", 0.1 if gamma is None else float(gamma), **options)
            case = runs.swe_case(r, k, s, bc=BCS[gen.mix(k, 6, "bc")], bottom=bool(gen.mix(k, 3, "bottom")), method=METHODS[gen.mix(k, 3, "method")],
                                 n=520 if k % 15 == 7 else None, steps=1 if k % 15 == 7 else None)
            solver = runs.solve(case.solver(), True)
            history(t, case, solver, case.u)
    for k in range(rec.n(10, 60)):
        with rec.trace("antidiffusive flux %d" % k) as t:
            n, cols = int(r.integers(1, 7)), [(), (1,), (2,)][gen.mix(k, 3)]
            gamma, dx = [0, 0.1, -0.5, 1.0][gen.mix(k, 4)], float(r.choice([0.5, 0.1, 2.0]))
            a, b = r.uniform(-1, 1, (n, *cols)), r.uniform(-1, 1, (n, *cols))
            left, right = finite_volume.LinearAntidiffusiveFlux(gamma, dx)(a.copy(), b.copy())
            t.ev("slope", [], [float(gamma), dx], a.ravel(), b.ravel(), left.ravel(), right.ravel())


# ------------------------------------------------------------ stand-in networks
def stand_ins(rec, r):
    for k in range(rec.n(36, 300)):
        with rec.trace("run with a stand-in network %d" % k) as t:
            sub = base(k)
            cells = [4, 4, 2, 6][gen.mix(k, 4)]
            stub = networks.Stub(r, inputs=2 * cells)
            getter = GETTERS[sub] if sub else None
            name, sub_name, gamma = sub or "llf", "", 0.0
            if k % 9 == 4:
                getter, name, sub_name = swe_solver.MCLFluxGetter(), "mcl", "central"
            case = runs.swe_case(r, k, Scheme(name, sub_name, gamma), bc=BCS[gen.mix(k, 6, "bc")], bottom=bool(gen.mix(k, 3, "bottom")),
                                 method=METHODS[gen.mix(k, 3, "method")], n=int(r.integers(3, 6)) if k % 18 != 10 else 270,
                                 steps=1 if k % 18 == 10 else None)
            case.options = {}
            if k % 9 == 7:  # slopes on top of a network on top of the base scheme
                case.cls = SWE["antidiffusion"]
                case.gamma = 0.15
                case.options = {"gamma": 0.15, "flux_getter": swe_solver.ReducedFluxGetter(cells, stub, getter)}
                case.sub, case.name = case.name, "antidiffusion"
            else:
                case.cls = networks.stub_solver(stub, getter, cells)
            case.u = np.asarray(np.asarray(case.u, np.float32), float)
            solver = case.solver()
            t.ev("loads", [], [stub.loads, 0])
            runs.solve(solver, True)
            t.ev("loads", [], [stub.loads, 1])
            history(t, case, solver, case.u, stub, cells)
            seen = len(stub.seen)
            runs.solve(case.solver(), True)  # another solver from the same description
            t.ev("loads", [], [len(stub.seen), 2 * seen])


# ------------------------------------------------------------------ node fluxes
def fluxes(rec, r):
    for k in range(rec.n(30, 200)):
        with rec.trace("corrected flux %d" % k) as t:
            sub = base(k)
            cells = [4, 2, 6][gen.mix(k, 3)]
            n = int(r.integers(3, 7))
            bc = ["periodic", ("outflow", "outflow")][gen.mix(k, 2)]
            flat = gen.mix(k, 4) == 0
            b = np.full(n, 0.25) if flat else gen.bottom(r, n)
            u = gen.swe_data(r, n + cells)
            u = np.asarray(np.asarray(u, np.float32), float)
            g, dx = float(r.choice([9.812, 1.0, 3.0])), float(r.choice([0.5, 1.0]))
            case = runs.Case("swe", sub or "llf", u[:n], bottom=b, bc=bc, g=g, dx=dx)
            bench = case.bench()
            stub = networks.Stub(r, inputs=2 * cells)
            getter = swe_solver.ReducedFluxGetter(cells, stub, GETTERS[sub] if sub else None)
            space = finite_volume.FiniteVolumeSpace(core.UniformMesh(bench.domain, n))
            flux = getter(bench, space, b) if k % 3 == 2 else getter(bench, space)
            base_flux = (GETTERS[sub] if sub else swe_solver.LaxFriedrichsFluxGetter())(bench, space)
            t.ev("dimension", [], [int(base_flux.input_dimension), cells, int(flux.input_dimension)])
            # the bottom handed in counts, not the benchmark's
            other = runs.Case("swe", sub or "llf", u[:n], bottom=gen.bottom(r, n), bc=bc, g=g, dx=dx).bench()
            given = (GETTERS[sub] if sub else swe_solver.LaxFriedrichsFluxGetter())(other, space, b)
            side = base_flux.input_dimension // 2
            q = gen.swe_data(r, n + 2 * side)
            q = [q[j:j + n + 1] for j in range(2 * side)]
            t.ev("alike", ["fluxes know the bottom handed in"], np.ravel(base_flux(*q)), np.ravel(given(*q)))
            gamma = float(r.uniform(-0.3, 0.3))
            options = {"flux_getter": GETTERS[sub]} if sub else {}
            one, two = [SWE["antidiffusion"](z, mesh_size=n, cfl_number=0.01, gamma=gamma, **options).flux_getter(z, space, *x)
                        for z, x in ((bench, ()), (other, (b,)))]
            side = one.input_dimension // 2
            q = gen.swe_data(r, n + 2 * side)
            q = [q[j:j + n + 1] for j in range(2 * side)]
            t.ev("alike", ["fluxes know the bottom handed in"], np.ravel(one(*q)), np.ravel(two(*q)))
            ghosts = cells // 2 + (1 if k % 5 == 0 else 0)  # more than needed is fine
            p = np.concatenate([r.permutation(u)[:0], gen.swe_data(r, n + 2 * ghosts)])
            p = np.asarray(np.asarray(p, np.float32), float)
            m = n + 1
            values = [p[j:j + m].copy() for j in range(2 * ghosts)]
            left, right = flux(*values)
            s, v = case.config()
            t.ev("flux", s, *v, [cells], stub.w.ravel(), stub.v.ravel(), [ghosts], p[:, 0], p[:, 1],
                 left[:, 0], left[:, 1], right[:, 0], right[:, 1], note=case.note)


class Known(finite_volume.NumericalFlux):
    """Returns known fluxes and remembers its inputs."""

    def __init__(self, dimension, left, right):
        self.input_dimension, self.left, self.right, self.inputs = dimension, left, right, None

    def __call__(self, *values):
        self.inputs = [np.array(v, copy=True) for v in values]
        return self.left.copy(), self.right.copy()


def sums(rec, r):
    for k in range(rec.n(30, 200)):
        with rec.trace("sum of fluxes %d" % k) as t:
            one, two = [2, 4, 6, 2, 8][gen.mix(k, 5)], [4, 2, 2, 2, 4, 6, 8][gen.mix(k, 7)]
            n, cols = int(r.integers(1, 5)), [(), (2,), (3,)][gen.mix(k, 3)]
            f = [r.uniform(-1, 1, (n, *cols)) for _ in range(4)]
            a, b = Known(one, f[0], f[1]), Known(two, f[2], f[3])
            flux = finite_volume.CorrectedNumericalFlux(a, b)
            t.ev("dimension", [], [one, two, int(flux.input_dimension)])
            more = max(one, two) + [0, 0, 2, 4][gen.mix(k, 4)]
            values = [r.uniform(-1, 1, (n, *cols)) for _ in range(more)]
            for _ in range(2):
                left, right = flux(*[v.copy() for v in values])
                t.ev("sum", [], *[x.ravel() for x in (f[0], f[1], f[2], f[3], left, right)])
            for x in (a, b):
                d = (more - x.input_dimension) // 2
                t.ev("centred", [], np.concatenate([v.ravel() for v in values[d:more - d]]),
                     np.concatenate([v.ravel() for v in x.inputs]))
        with rec.trace("curvature %d" % k) as t:
            step = [None, 1.0, 0.5, float(r.uniform(0.1, 3)), 2.0 ** -8][gen.mix(k, 5)]
            m = int(r.integers(1, 5))
            x = r.uniform(-2, 2, (m, 8)) * [1.0, 2.0 ** -8, 4.0][gen.mix(k, 3)]
            c = Curvature() if step is None else Curvature(step)
            for y in (x, x[::-1].copy()):
                t.ev("curvature", [], [2.0 if step is None else step], y.ravel(), np.asarray(c.fit(y).transform(y.copy()), float).ravel())
        with rec.trace("network flux %d" % k) as t:
            cells = [2, 4, 6][gen.mix(k, 3)]
            stub = networks.Stub(r, inputs=2 * cells)
            flux = swe_solver.ApproximatedSubgridFlux(cells, stub)
            values = [np.asarray(r.uniform(0, 1, (n, 2)), np.float32) for _ in range(cells)]
            left, right = flux(*values)
            t.ev("skew", [], np.asarray(left, float).ravel(), np.asarray(right, float).ravel())
            flux(*values)
            t.ev("loads", [], [stub.loads, 1])


# ---------------------------------------------------------------------- networks
def real(rec, r):
    types = [swe_solver.LaxFriedrichsNetwork, swe_solver.LaxFriedrichs2Network]
    copies = []
    for c in types:
        net = c()
        networks.quietly(net.load_params)
        copies.append(net)
    for k in range(rec.n(10, 60)):
        with rec.trace("run with a network %d" % k) as t:
            case = runs.swe_case(r, k, Scheme("llf"), method="euler", bottom=None if k % 2 else False, bc=BCS[gen.mix(k, 6, "bc")],
                                 steps=2, n=int(r.integers(3, 6)) if k % 5 != 3 else 270)
            case.explicit_method = True
            case.cls = SWE[["reduced-llf", "reduced-llf-2"][gen.mix(k, 2)]]
            if k % 5 == 4:  # as a base scheme, selected by key
                key = ["reduced-llf", "reduced-llf-2"][gen.mix(k, 2)]
                case.cls, case.options = SWE["antidiffusion"], {"gamma": 0, "flux_getter": GETTERS[key]}
            solver = case.solver()
            networks.quietly(runs.solve, solver, True)
            begin(t, case)
            h = solver.solution
            times, steps = np.asarray(h.time_history, float), np.asarray(h.time_step_history, float)
            values = h.value_history
            t.ev("init", [], [times[0]], case.vec(values[0]), case.vec(case.u), [case.n])
            cl, cr = (case.bc, case.bc) if isinstance(case.bc, str) else case.bc
            for j in range(1, len(times)):
                u = np.asarray(values[j - 1], float)
                wall = np.array([1.0, -1.0])
                inflow = [np.array([i[0] + i[2] * times[j - 1], i[1] + i[3] * times[j - 1]]) if i else None
                          for i in (case.inl, case.inr)]
                left = {"periodic": [u[-2], u[-1]], "wall": [u[0] * wall] * 2, "outflow": [u[0]] * 2, "inflow": [inflow[0]] * 2}[cl]
                right = {"periodic": [u[0], u[1]], "wall": [u[-1] * wall] * 2, "outflow": [u[-1]] * 2, "inflow": [inflow[1]] * 2}[cr]
                p = np.array([*left, *u, *right])
                x = np.concatenate([p[i:i + case.n + 1] for i in range(4)], axis=1).astype(np.float32)
                t.ev("asked", [], [4], x.ravel().astype(float), note=case.note)
                y = np.asarray(copies[gen.mix(k, 2)].predict(x), float)
                t.ev("predicted", [], [times[j], steps[j - 1]], case.vec(values[j]), y[:, 0], y[:, 1], note=case.note)
            t.ev("end", [], [float(h.time)])


# ------------------------------------------------------------------------ coarse
def coarse(rec, r):
    for k in range(rec.n(36, 300)):
        with rec.trace("coarse run %d" % k) as t:
            sub = base(k)
            deg = [None, 1, 2, 3, 4, 2][gen.mix(k // 2, 6)]
            d = deg or 8
            n = d * (1 if d == 8 else int(r.integers(1, 4 if d < 4 else 3)))
            if n < 2:
                n = 2 * d
            if k % 18 == 7:
                n = d * (560 // d)
            case = runs.swe_case(r, k, Scheme(sub or "llf"), bc=BCS[gen.mix(k, 6, "bc")], bottom=bool(gen.mix(k, 3, "bottom")), n=n, method=METHODS[gen.mix(k, 3, "method")],
                                 steps=2, cfl=0.05)
            case.cls, case.deg, case.options = SWE["coarse"], d, {}
            if deg:
                case.options["coarsening_degree"] = deg
            if sub:
                case.options["flux_getter"] = GETTERS[sub]
            solver = case.solver()
            t.ev("alike", ["coarse meshes cover the domain"],
                 [case.a, case.dx * d, n // d], [float(solver.solution.space.mesh.domain.a),
                                                 float(solver.solution.space.mesh.step_length), len(solver.solution.space.mesh)])
            runs.solve(solver, True)
            history(t, case, solver, case.u)
            if getattr(solver, "broken", False):
                continue
            # the same without history: only the end is left
            last = runs.solve(case.solver(save_history=False), True)
            t.ev("alike", ["runs with and without history end alike"], case.vec(solver.solution.value), case.vec(last.solution.value))
            # once more from other data
            for s in (solver, last):
                other = runs.swe_case(r, k, Scheme(sub or "llf"), bc=case.bc, n=n, method=case.method)
                case.u = other.u
                s.reinitialize(case.bench())
                begin(t, case)
                t.ev("init", [], [float(s.solution.time)], case.vec(s.solution.value), case.vec(case.u), [len(s.solution.value)])
                runs.solve(s, True)
                if s is solver:
                    history(t, case, s, case.u)
                elif not s.broken:
                    fresh = runs.solve(case.solver(save_history=False), True)
                    t.ev("alike", ["reinitialised runs are fresh runs"], case.vec(s.solution.value), case.vec(fresh.solution.value))
    for k in range(rec.n(12, 60)):
        with rec.trace("coarse data %d" % k) as t:
            keys = ["oscillation", "b4", "lake-at-rest-perturbation", "damm-break", "moving-water-bump-bathymetry", "cylindrical-damm-break"]
            b = water.BENCHMARKS[keys[gen.mix(k, 6)]]()
            d = [2, 3, 4, 5][gen.mix(k, 4)]
            n = d * int(r.integers(1, 6))
            kw = dict(mesh_size=n, cfl_number=0.001)
            history_ = bool(gen.mix(k, 2))
            s = SWE["coarse"](b, coarsening_degree=d, save_history=history_, **kw)
            x = np.asarray(SWE["llf"](b, **kw).solution.value, float)
            mean = x.reshape(n // d, d, 2).mean(axis=1)
            t.ev("alike", ["initially averages of the base mesh's data are shown"], np.asarray(s.solution.value, float).ravel(), mean.ravel())
            c = water.BENCHMARKS["oscillation"](height_wave_number=2, velocity_average=float(r.uniform(0, 1)), height_amplitude=0.3)
            c.domain, c.start_time = b.domain, b.start_time
            s.reinitialize(c)
            x = np.asarray(SWE["llf"](c, **kw).solution.value, float)
            mean = x.reshape(n // d, d, 2).mean(axis=1)
            t.ev("alike", ["after reinitialisation averages of the new data are shown"], np.asarray(s.solution.value, float).ravel(), mean.ravel())
            if history_:
                t.ev("alike", ["after reinitialisation averages of the new data are shown"],
                     np.asarray(s.solution.value_history[-1], float).ravel(), mean.ravel())


# -------------------------------------------------------------- option or default
def choices(rec, r):
    """MCL's target flux is a choice of its own, central by default."""
    for k in range(rec.n(12, 80)):
        with rec.trace("limited run %d" % k) as t:
            sub = base(k)
            s = Scheme("mcl", sub or "central", **({"flux_getter": GETTERS[sub]} if sub else {}))
            case = runs.swe_case(r, k, s, bc=BCS[gen.mix(k, 6, "bc")], bottom=bool(gen.mix(k, 3, "bottom")), method=METHODS[gen.mix(k, 3, "method")])
            history(t, case, runs.solve(case.solver(), True), case.u)


def drive(rec):
    r = gen.rng(rec.seed, "C18")
    antidiffusive(rec, r)
    stand_ins(rec, r)
    fluxes(rec, r)
    sums(rec, r)
    real(rec, r)
    coarse(rec, r)
    choices(rec, r)
