"""C16: errors, orders of convergence, error evolutions."""
import contextlib
import io

import numpy as np

import gen
from env import core, finite_volume, finite_element, benchmark, swe, CellData, SCALAR_FV, FE, swe_solver

import matplotlib.pyplot as plt
from command import error as cerror
from command import error_evolution as cevo

LEVEL = "exploration"
RULE = ("every event is one error, distance, refinement level, table row, error evolution, average or series entry of "
        "random discrete solutions on random meshes, spaces and time grids")
ASSUMPTIONS = ["polynomial exact solutions up to degree five, up to 16 cells (some up to 300), elements up to degree three",
               "on equally long runs with different times either time grid is accepted",
               "plots are read from matplotlib's figures (Agg)"]

MAXIMUM = next(c for c in vars(core).values() if isinstance(c, type) and getattr(c, "name", None) == "Linf")
NORMS = {"L1": core.L1Norm, "L2": core.L2Norm, "Linf": MAXIMUM}


def polynomial(c):
    def f(x):
        y = 0.0
        for a in reversed(c):
            y = y * x + a
        return float(y)

    return f


def place(r, k):
    return float([0.0, -1.0, 0.5][gen.mix(k, 3)]), float([1.0, 0.25, 0.1, 0.375][gen.mix(k // 3, 4)])


def space_of(p, a, dx, n):
    mesh = core.UniformMesh(core.Interval(a, a + dx * n), n)
    return finite_element.LagrangeSpace(mesh, p) if p else finite_volume.FiniteVolumeSpace(mesh)


def norm_of(name, space, q, k):
    cls = NORMS[name]
    if name == "Linf":
        return cls(space.mesh)
    if q == 1 and k % 2:
        return cls(space.mesh)
    return cls(space.mesh, quadrature_degree=q)


def comps(x, i):
    """Component i of a scalar or vector valued array."""
    x = np.asarray(x, float)
    return x[..., i] if x.ndim > 1 else x


def errors(rec, r):
    for k in range(rec.n(90, 600)):
        with rec.trace("error %d" % k) as t:
            a, dx = place(r, k)
            n = int(r.integers(1, 9))
            if k % 30 == 17:  # many small cells
                n, dx = int(r.integers(260, 300)), dx / 128
            p = int([0, 0, 1, 2, 3, 0][gen.mix(k, 6)])
            m = 1 if p or k % 5 else int(r.integers(1, 4))
            vector = m > 1 or (not p and k % 7 == 0)
            space = space_of(p, a, dx, n)
            dim = n * p if p else n
            q = int(r.integers(1, 5))
            name = ["L2", "L1", "Linf"][int(r.integers(0, 3))]
            cs = r.uniform(-1, 1, (m, int(r.integers(1, 6))))
            if k % 11 == 0:
                cs = np.round(cs * 4) / 4
            shape = (dim, m) if vector else (dim,)
            time = float(r.choice([0.0, 0.5, r.uniform(0, 3)]))
            u, w = r.uniform(-1, 1, shape), r.uniform(-1, 1, shape)
            if k % 8 == 0:  # nearly the same
                w = u.copy()
                w.flat[0] += 0.25
            one = core.DiscreteSolution(u, initial_time=time, space=space)
            other = core.DiscreteSolution(w, initial_time=time + 1, space=space)
            if k % 4 == 0:
                one = core.DiscreteSolutionWithHistory(one)
                one.update(0.25, u * 0.5)
                time, u = one.time, u * 0.5
            calc = cerror.ErrorCalculator(space, norm_of(name, space, q, k))
            if name == "L2" and q == 1 and k % 3 == 0:
                calc = cerror.ErrorCalculator(space)
            fs = [polynomial(c) for c in cs]
            exact = (lambda x: np.array([f(x) for f in fs])) if vector else fs[0]
            note = "%s q=%d p=%d cells=%d" % (name, q, p, n)
            at, e = calc(exact, one)
            t.ev("shape", [], [m], [np.size(e)], note=note)
            for i in range(m):
                t.ev("error", [name], [a, dx, n, p, q], cs[i], comps(u, i),
                     [time, float(at), float(np.atleast_1d(e)[i])], note=note)
            at, e = calc(other, one)
            _, back = calc(one, other)
            _, none = calc(one, one)
            twin = core.DiscreteSolution(u.copy(), initial_time=7.0, space=space)
            _, zero = calc(twin, one)
            for i in range(m):
                t.ev("distance", [name], [a, dx, n, p, q], comps(w, i), comps(u, i),
                     [time, float(at), *[float(np.atleast_1d(x)[i]) for x in (e, back, none)]], note=note)
                t.ev("distance", [name], [a, dx, n, p, q], comps(u, i), comps(u, i),
                     [time, float(at), *[float(np.atleast_1d(x)[i]) for x in (zero, zero, none)]], note=note)


class Polynomial(CellData):
    """Random data with a polynomial as exact solution."""

    def __init__(self, c, values, **kw):
        super().__init__("advection", values, **kw)
        self._f, self._c = polynomial(c), c

    def initial_data(self, x):
        return float(np.sin(7 * x) + 0.3 * self._v[self._cell(x)] if self._rough else self._f(x) + self._amp * np.cos(9 * x))

    def exact_solution(self, x, t):
        return self._f(x) + (t - self.end_time) * 5.0

    _rough, _amp = False, 0.0


def study(rec, r):
    for k in range(rec.n(24, 150)):
        with rec.trace("refinement study %d" % k) as t:
            a, dx = place(r, k)
            coarse = int(r.integers(2, 4))
            levels = int(r.integers(1, 4))
            c = r.uniform(-1, 1, int(r.integers(1, 5)))
            bench = Polynomial(c, r.uniform(-1, 1, 4), dx=dx * coarse / 4, a=a, end_time=float(r.uniform(0.5, 2)))
            bench._rough, bench._amp = gen.mix(k, 3) == 0, float(r.choice([0.0, 0.01, 0.5]))
            names = [["llf", "cg", "mcl-fv"][gen.mix(k, 3)], ["cg", "cg-low", "central"][gen.mix(k // 3, 3)]][: 1 + k % 2]
            all_solvers, all_spaces, settings = [], [], []
            for i, name in enumerate(names):
                p = int(r.integers(1, 4)) if name.startswith("cg") else 0
                make = FE[name] if p else SCALAR_FV[name]
                kw = {"polynomial_degree": p} if p else {}
                solvers = [make(bench, name="solver %s %d" % (name, i), mesh_size=coarse * 2**j, **kw) for j in range(levels)]
                all_solvers.append(solvers)
                all_spaces.append([s.solution.space for s in solvers])
                settings.append(p)

            def table(solvers, p, dofs, errs, eocs):
                t.ev("study", [], [0])
                t.ev("shape", [], [levels, 3, levels, 3, levels], [len(dofs), *errs.shape, *eocs.shape])
                for j, s in enumerate(solvers):
                    t.ev("level", [], [a, dx / 2**j, coarse * 2**j, p, p + 1 if p else 1], c,
                         np.asarray(s.solution.value, float), [float(dofs[j])], errs[:, j], eocs[:, j],
                         note="%s cells=%d p=%d" % (s.name, coarse * 2**j, p))

            results = []
            for solvers, spaces, p in zip(all_solvers, all_spaces, settings):
                calc = cerror.EOCCalculator(bench)
                dofs, errs, eocs = calc(solvers, spaces)
                results.append((dofs, errs, eocs))
                table(solvers, p, dofs, errs, eocs)
                t.ev("names", [" ".join(["L1", "L2", "Linf"]), " ".join(calc.norm_names)], [0])
                frame = cerror.EOCDataFrame()(dofs, errs, eocs, calc.norm_names)
                columns = ["DOFs"] + [x + " " + y for x in calc.norm_names for y in ("error", "eoc")]
                t.ev("names", [", ".join(columns), ", ".join(" ".join(x).strip() for x in frame.columns)], [0])
                t.ev("shape", [], list(range(levels)), [int(i) for i in frame.index])
                for j in range(levels):
                    t.ev("row", [], [j, len(frame)], [float(x) for x in frame.iloc[j].tolist()])
            out = io.StringIO()
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
                cerror.CalculateEOC(bench, all_solvers, all_spaces).execute()
            lines = [x for x in out.getvalue().splitlines() if x.strip()]
            titles = [i for i, x in enumerate(lines) if x.strip().startswith("solver ")]
            t.ev("names", [", ".join(s[0].name for s in all_solvers), ", ".join(lines[i].strip() for i in titles)], [0])
            for (dofs, errs, eocs), solvers, p, i, end in zip(results, all_solvers, settings, titles, titles[1:] + [len(lines)]):
                table(solvers, p, dofs, errs, eocs)
                rows = [x.split() for x in lines[i + 1:end]]
                rows = [x for x in rows if x[0].isdigit() and len(x) == 8]
                t.ev("shape", [], list(range(levels)), [int(x[0]) for x in rows])
                for j, x in enumerate(rows):
                    t.ev("row", [], [j, len(rows)], [float(y) for y in x[1:]])


def history(r, times, shape, space, positive=False, drop=False, unit=1.0, tick=1.0):
    times = np.asarray(times) * tick
    values = [unit * (r.uniform(0.5, 1.5, shape) if positive else r.uniform(-1, 1, shape)) for _ in times]
    s = core.DiscreteSolutionWithHistory(
        core.DiscreteSolution(values[0], initial_time=float(times[0]), space=None if drop else space))
    for i in range(1, len(times)):
        s.update(float(times[i] - times[i - 1]), values[i])
    return s


def evolution_events(t, label, setting, approx, exact, time, error, note="", unit=1.0, tick=1.0):
    """Relative errors do not depend on the units (powers of two) of the values and times."""
    u, w = np.asarray(approx.value_history, float) / unit, np.asarray(exact.value_history, float) / unit
    error = np.asarray(error, float)
    m = 1 if u.ndim == 2 else u.shape[2]
    t.ev("shape", [], [len(time)] if u.ndim == 2 else [len(time), m], list(error.shape), note=note)
    for i in range(m):
        pick = (lambda x: x) if u.ndim == 2 else (lambda x: x[:, i])
        t.ev("evolution", [label], setting, np.asarray(approx.time_history) / tick,
             np.asarray(exact.time_history) / tick, np.asarray(time) / tick,
             error if u.ndim == 2 else error[:, i], *[pick(x) for x in u], *[pick(x) for x in w], note=note)


def grid(r, k, n):
    start = float([0.0, 0.5][gen.mix(k, 2)])
    t = start + np.concatenate([[0.0], np.cumsum(r.uniform(0.05, 0.4, n - 1))])
    return t


def evolutions(rec, r):
    for k in range(rec.n(60, 400)):
        with rec.trace("error evolution %d" % k) as t:
            a, dx = place(r, k)
            n = int(r.integers(1, 6))
            if k % 30 == 17:  # many small cells
                n, dx = int(r.integers(260, 300)), dx / 128
            p = int([0, 0, 0, 1, 2][gen.mix(k, 5)])
            space = space_of(p, a, dx, n)
            dim = n * p if p else n
            shape = (dim,) if p or k % 3 == 0 else (dim, int(r.integers(1, 3)))
            l1, l2 = int(r.integers(1, 7)), int(r.integers(1, 7))
            if k % 20 == 9 and n < 7:  # many records
                l1, l2 = [(150, 4), (5, 300), (130, 140)][gen.mix(k // 20, 3)] if k != 29 else (3, 1200)
            t1, t2 = grid(r, k, l1), grid(r, k, l2)
            if k % 4 and l1 > 1 and l2 > 1:  # same end
                t2 = t2[0] + (t2 - t2[0]) * (t1[-1] - t1[0]) / (t2[-1] - t2[0])
            unit = 2.0 ** int([0, -24, -30, -44, 20][gen.mix(k, 5, "unit")])
            tick = 2.0 ** int([0, 0, -30, -40, 20][gen.mix(k, 5, "tick")])
            if tick != 1 and gen.mix(k, 2, "alike"):
                l2 = l1
                t2 = grid(r, k, l2)
            one = history(r, t1, shape, space, drop=gen.mix(k, 6) == 1, unit=unit, tick=tick)
            two = history(r, t2, shape, space, positive=True, drop=gen.mix(k, 6) == 3, unit=unit, tick=tick)
            name, q, norm = "L2", 1, None
            if k % 3 == 1:
                name, q = ["L1", "L2", "Linf"][gen.mix(k, 9) // 3], int(r.integers(1, 4))
                norm = norm_of(name, space, q, k)
            calc = cevo.ErrorEvolutionCalculator()
            time, error = calc(one, two) if norm is None else calc(one, two, norm)
            note = "%s p=%d cells=%d records %d %d" % (name, p, n, l1, l2)
            evolution_events(t, name, [a, dx, n, p, q], one, two, time, error, note, unit, tick)
            if gen.mix(k, 6) != 3 and k % 2:  # against itself
                time, error = calc(two, two)
                evolution_events(t, "L2", [a, dx, n, p, 1], two, two, time, error, note + " same", unit, tick)


def plots(rec, r):
    for k in range(rec.n(12, 80)):
        with rec.trace("plotted evolution %d" % k) as t:
            n = int(r.integers(2, 6))
            dx = 0.5
            space = space_of(0, 0.0, dx, n)

            class Done:
                def __init__(self, s):
                    self.solution, self.name, self.short = s, "name", "short"

            one = history(r, grid(r, 0, int(r.integers(2, 6))), (n, 2), space, True)
            two = history(r, grid(r, 0, int(r.integers(2, 6))), (n, 2), space, True)
            plt.close("all")
            cevo.PlotShallowWaterErrorEvolution([Done(one), Done(two)], solver_executed=True).execute()
            lines = [x.get_xydata() for f in plt.get_fignums() for x in plt.figure(f).axes[0].lines]
            time, error = cevo.ErrorEvolutionCalculator()(one, two)
            t.ev("shape", [], [2], [len(lines)])
            evolution_events(t, "L2", [0.0, dx, n, 0, 1], one, two, lines[0][:, 0], np.stack([x[:, 1] for x in lines[:2]], axis=1), "plot")
            for i in range(2):
                t.ev("plotted", [], time, error[:, i], lines[i][:, 0], lines[i][:, 1])
            plt.close("all")
    for k in range(rec.n(20, 150)):
        with rec.trace("average evolution %d" % k) as t:
            m = int(r.integers(1, 5))
            times = [grid(r, 0, int(r.integers(1 if k % 5 == 0 else 2, 7))) for _ in range(m)]
            if k % 2:
                times = [x * 2.0 / x[-1] if len(x) > 1 else x for x in times]
            errs = [r.uniform(0, 1, (len(x), 2)) for x in times]
            plt.close("all")
            cevo.PlotShallowWaterAverageErrorEvolution([x.copy() for x in times], [x.copy() for x in errs]).execute()
            figures = [plt.figure(f).axes[0] for f in plt.get_fignums()]
            t.ev("shape", [], [2, 1, 1, 1, 1], [len(figures), *[len(x.lines) for x in figures], *[len(x.collections) for x in figures]])
            for i, ax in enumerate(figures):
                line = ax.lines[0].get_xydata()
                band = ax.collections[0].get_paths()[0].vertices
                t.ev("average", [], line[:, 0], line[:, 1], band[:, 0], band[:, 1],
                     *[y for x, e in zip(times, errs) for y in (x, e[:, i])], note="height" if i == 0 else "discharge")
            plt.close("all")


class Unlucky(Exception):
    pass


def failing(cls, chosen, log):
    """A solver that fails for chosen runs (counted)."""

    class Failing(cls):
        def solve(self, *args, **kw):
            log.append(None)
            if len(log) - 1 in chosen:
                raise Unlucky("chosen")
            return super().solve(*args, **kw)

    return Failing


def series(rec, r):
    for k in range(rec.n(6, 40)):
        with rec.trace("series %d" % k) as t:
            n, number = 6, int(r.integers(1, 5))
            seed, end = int(r.integers(1, 1000)), float(r.choice([8.0, 13.0]))
            drawn = benchmark.shallow_water.RandomBenchmarkGenerator(seed=seed, end_time=end)
            problems = [drawn() for _ in range(number)]
            fails = {i for i in range(number) if k % 2 and r.uniform() < 0.5}
            log, met = [], []

            def exact(cls, b, **kw):
                return cls(b, mesh_size=n, cfl_number=0.08, save_history=True, **kw)

            def approx(b):
                if k % 3 == 0:
                    return swe_solver.CoarseSolver(b, mesh_size=3 * n, coarsening_degree=3, cfl_number=0.06, save_history=True)
                return swe_solver.LowOrderSolver(b, mesh_size=n, cfl_number=0.06, save_history=True)

            class Watched(failing(swe_solver.LaxFriedrichsSolver, fails, log)):
                def reinitialize(self, b):
                    met.append(b)
                    return super().reinitialize(b)

            first = benchmark.shallow_water.RandomBenchmarkGenerator(seed=seed + 5, end_time=end)()
            run = cevo.GenerateShallowWaterErrorEvolutionSeries(
                approx(first), exact(Watched, first), seed=seed, end_time=end, initial_conditions=number)
            with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
                run.execute()
            t.ev("series", [], [0])
            for i, b in enumerate(problems):
                x = np.linspace(b.domain.a, b.domain.b, 9)
                t.ev("problem", [], [int(i in fails)], np.array([b.initial_data(y) for y in x]).ravel(),
                     np.array([met[i].initial_data(y) for y in x]).ravel() if i < len(met) else [0.0],
                     note="seed %d, problem %d" % (seed, i))
            t.ev("outcome", [], [number], [len(run.times), len(run.errors)], note="failing: %s" % sorted(fails))
            good = [b for i, b in enumerate(problems) if i not in fails]
            for i, b in enumerate(good):
                one, two = approx(b), exact(swe_solver.LaxFriedrichsSolver, b)
                for s in (one, two):
                    s.solve(disable=True, leave=False)
                dx = (b.domain.b - b.domain.a) / n
                if i < len(run.times) and i < len(run.errors):
                    evolution_events(t, "L2", [b.domain.a, dx, n, 0, 1], one.solution, two.solution,
                                     run.times[i], run.errors[i], note="entry %d of seed %d" % (i, seed))


def drive(rec):
    r = gen.rng(rec.seed, "C16")
    errors(rec, r)
    study(rec, r)
    evolutions(rec, r)
    plots(rec, r)
    series(rec, r)
