"""C09: whole runs in lockstep with the specification."""
import numpy as np

import gen
import runs
from env import core, finite_volume, finite_element, CellData, SweCellData, benchmark
from schemes import all_schemes, Scheme, GETTERS

LEVEL = "exploration"
RULE = ("every event is one configured run, its initial state, one recorded step or its end; each recorded state is "
        "compared with one step of the specified integrator and scheme from the state recorded before")
ASSUMPTIONS = ["agreement means 2^-26 relative to one plus the largest value of the state",
               "re-initialisation with other initial data of an otherwise equal problem"]


def trajectory(case, solver):
    h = solver.solution
    return [case.time(h.time_history), *[case.vec(v) for v in h.value_history]]


def one(rec, r, case, k):
    case.unit(len(rec.traces))
    with rec.trace("run %d: %s" % (k, case.label)) as t:
        solver = runs.solve(case.solver())
        runs.records(t, case, solver)
        if k % 3 == 0:  # the same without history
            other = runs.solve(case.solver(save_history=False))
            t.ev("same", ["solutions with and without history agree"], [case.time(solver.solution.time)],
                 case.vec(solver.solution.value), [case.time(other.solution.time)], case.vec(other.solution.value), note=case.note)
        if k % 2 == 0:  # used before with other data
            first = case.u[r.permutation(len(case.u))]
            again = case.solver(first)
            if k % 4 == 0:
                runs.solve(again)
            again.reinitialize(case.bench())
            if k % 8 == 0:
                again.reinitialize(case.bench(first))
                runs.solve(again)
                again.reinitialize(case.bench())
            runs.solve(again)
            runs.records(t, case, again, fixing=first)
            if case.stepping != "initial":
                t.ev("same", ["a re-initialised solver runs like a fresh one"], *trajectory(case, solver),
                     *trajectory(case, again), note=case.note)


def polynomials(rec, r):
    """Initial values of polynomial initial data, through the solvers."""
    for k in range(rec.n(12, 60)):
        with rec.trace("polynomial initial data %d" % k) as t:
            c = r.uniform(-1, 1, 4)
            n = int(r.integers(2, 6))
            a, h = float(r.choice([0.0, -1.0, 0.5])), float(r.choice([0.5, 0.25]))
            p = int(r.integers(1, 4))
            bench = CellData("burgers", np.zeros(n), dx=h, a=a, start_time=0.5)
            f = lambda x: float(np.polynomial.polynomial.polyval(x, c))
            bench.initial_data = f
            for history in (False, True):
                s = finite_volume.get_finite_volume_solution(bench, n, history)
                t.ev("poly", ["averages"], [a, h], c, [n], np.asarray(s.value, float))
            s = runs.CLASSES["scalar"]["llf"](bench, mesh_size=n)
            t.ev("poly", ["averages"], [a, h], c, [n], np.asarray(s.solution.value, float))
            s.reinitialize(bench)
            t.ev("poly", ["averages"], [a, h], c, [n], np.asarray(s.solution.value, float))
            s = finite_element.get_finite_element_solution(bench, n, p, bool(gen.mix(k, 2)))
            t.ev("poly", ["nodes"], [a, h / p], c, [n * p], np.asarray(s.value, float))
            t.ev("same", ["solutions start at the start time"], [0.5], [float(s.time)])
            w = SweCellData(np.ones((n, 2)), dx=h, a=a)
            w.initial_data = lambda x: np.array([10 + f(x), f(-x)])
            s = runs.CLASSES["swe"]["llf"](w, mesh_size=n).solution
            t.ev("poly", ["averages"], [a, h], [c[0] + 10, *c[1:]], [n], np.asarray(s.value, float)[:, 0])
            t.ev("poly", ["averages"], [a, h], c * [1, -1, 1, -1], [n], np.asarray(s.value, float)[:, 1])


def explosions(rec, r):
    """Runs which leave the finite numbers."""
    for k in range(rec.n(12, 40)):
        n = 5
        u = gen.scalar_data(r, n) + np.array([3.0, -2.0, 1.5, 5.0, 9.0])
        if k % 3 == 0:
            case = runs.Case("scalar", "central", u * 1e100, problem="burgers", method=["euler", "ssp3"][gen.mix(k, 2)], cfl=1e3, stop=1e5)
        elif k % 3 == 1:
            case = runs.Case("fem", "cg", u * 1e100, problem="burgers", method="heun", cfl=1e3, stop=1e5)
        else:
            case = runs.Case("swe", ["central", "es", "lw"][gen.mix(k // 3, 3)], np.stack([np.abs(u) + 1, u], 1), sub="",
                             method=["euler", "heun"][gen.mix(k, 2)] if gen.mix(k // 3, 3) < 2 else "euler", cfl=2.0, stop=1e5)
        with rec.trace("exploding run %d: %s" % (k, case.label)) as t:
            s, v = case.config()
            t.ev("config", s, *v, note=case.note)
            solver = case.solver()
            try:
                runs.solve(solver)
                how = "none"
            except Exception as error:
                how = type(error).__name__
            h = solver.solution
            last = case.vec(h.value_history[-1])
            t.ev("stopped", [how, "finite" if np.all(np.isfinite(np.asarray(h.value_history, float))) else "not finite",
                             "current" if np.array_equal(last, case.vec(h.value)) and h.time == h.time_history[-1]
                             and len(h.time_history) == len(h.value_history) else "different"], [0], note=case.note)


def drive(rec):
    r = gen.rng(rec.seed, "C09")
    k = 0
    for k in range(rec.n(36, 240)):
        one(rec, r, runs.scalar_case(r, k), k)
    for k in range(rec.n(48, 240)):
        one(rec, r, runs.fem_case(r, k), k)
    schemes = all_schemes()
    for k in range(rec.n(6, 18)):
        one(rec, r, runs.large(r, k, runs.LARGE[k % 6]), k)
    for k in range(rec.n(7, 24)):
        one(rec, r, runs.large(r, k, schemes[gen.mix(k, len(schemes), "large")]), k)
    for k in range(rec.n(2, 10) * len(schemes)):
        # the second round ends within its last step
        late = dict(steps=2 + k % 2, rest=[0.5, 0.3, 0.75][k % 3], method=["euler", "heun", "ssp3"][gen.mix(k, 3)]) if k // len(schemes) % 2 else {}
        one(rec, r, runs.swe_case(r, k + k // len(schemes), schemes[k % len(schemes)], **late), k + k // len(schemes))
    for k in range(rec.n(10, 60)):  # coarsened runs
        sub = ["llf", "low-order", "central", "es1", ""][gen.mix(k, 5)]
        deg = int(r.integers(1, 4))
        c = runs.swe_case(r, k, Scheme(sub or "llf"), n=deg * int(r.integers(2, 4)), method=["euler", "heun", "ssp3"][gen.mix(k, 3)])
        c.cls, c.deg, c.options = runs.CLASSES["swe"]["coarse"], deg, {"coarsening_degree": deg}
        if sub:
            c.options["flux_getter"] = GETTERS[sub]
        one(rec, r, c, k)
    polynomials(rec, r)
    explosions(rec, r)
