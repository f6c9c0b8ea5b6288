"""C03: the time stepping iterator."""
import numpy as np

import gen
import qspec
from env import core, SCALAR_FV, SWE
from schemes import CellData, SweCellData, ODE

LEVEL = "model_checking"
RULE = ("every event is one construction, iter(), next() or len() of a time stepping (behaviours of model_ts.qnt and "
        "random histories) or one call of the CFL checker; distinct payloads are counted")
ASSUMPTIONS = ["at most some thousand steps per run; ends within 1e-15 of the threshold 1e-12 do not occur"]


class Subject:
    """A time stepping under observation."""

    def __init__(self, t, start, end, cfl, adaptive, opt):
        self.t, self.opt, self.calls = t, opt, []
        self.note = "start=%r end=%r cfl=%r adaptive=%r opt=%r" % (start, end, cfl, adaptive, opt)
        self.ts = core.TimeStepping(end, cfl, self.step, adaptive=adaptive, start_time=start)
        t.ev("new", ["adaptive" if adaptive else "fixed"], [start, end, cfl], self.taken(), note=self.note)

    def step(self):
        self.calls.append(float(self.opt))
        return float(self.opt)

    def taken(self):
        c, self.calls = self.calls, []
        return c

    def iter(self):
        self.it = iter(self.ts)
        self.t.ev("iter", [], [float(self.ts.time), int(self.ts.time_steps_number)], self.taken(), note=self.note)

    def next(self):
        value, kind = 0.0, "step"
        try:
            value = next(self.it)
        except StopIteration:
            kind = "stop"
        except core.TimeStepTooSmallError:
            kind = "small"
        self.t.ev("next", [kind], [float(value), float(self.ts.time), int(self.ts.time_steps_number)], self.taken(),
                  note=self.note + " -> %s %r" % (kind, value))
        return kind

    def len(self):
        self.t.ev("len", [], [len(self.ts)], self.taken(), note=self.note)

    def all(self, limit=6000, change=None):
        self.iter()
        for k in range(limit):
            if change is not None:
                self.opt = change(k)
            kind = self.next()
            if kind != "step":
                return kind


def behaviours(rec, r):
    """Behaviours of the specification, replayed."""
    for k, states in enumerate(qspec.mbt_traces("model_ts", "model_ts.qnt", rec.n(16, 30), rec.n(150, 700), rec.seed)):
        unit = [0.25, 0.1, 1.0, 1 / 3, 0.007][k % 5]
        s0 = states[0]["s"]
        with rec.trace("behaviour %d" % k) as t:
            x = Subject(t, s0["start"] * unit, s0["stop"] * unit, float(s0["cfl"]), s0["adaptive"],
                        states[0]["opt"] * unit)
            for s in states[1:]:
                action = s["last"]["kind"]
                if action == "iter":
                    x.iter()
                    if x.opt > 0:
                        x.len()
                elif action == "change":
                    x.opt = s["opt"] * unit
                else:
                    x.next()


def histories(rec, r):
    for k in range(rec.n(120, 800)):
        with rec.trace("fixed steps %d" % k) as t:
            start = float([0.0, 0.0, r.uniform(-3, 3), r.integers(-2, 4) / 10][k % 4])
            cfl = float([1.0, 0.5, 0.1, r.uniform(0.01, 1.5), r.choice([0.3, 0.7, 0.9, 1 / 3])][k % 5])
            opt = float([1.0, 0.1, 0.01, r.uniform(0.001, 2), 1 / 7][int(r.integers(0, 5))])
            n = int(r.integers(0, 40)) if k % 3 else int(r.integers(1, 4))
            span = n * cfl * opt
            kind = k % 8
            if kind == 1:
                span += r.uniform(0, 1) * cfl * opt
            elif kind == 2:
                span += 3e-12
            elif kind == 3 and n:
                span -= 4e-12
            elif kind == 4:
                span += 2e-13
            elif kind == 5 and n:
                span -= 2e-13
            elif kind == 6:
                span = round(span, 2)
            x = Subject(t, start, start + span, cfl, False, opt)
            if k % 2:
                x.len()
            kind = x.all()
            if not k % 2:
                x.len()
            for _ in range(2):
                x.next()  # exhausted iterators stay exhausted
            if k % 3 == 0:  # abandon a run half-way, start again
                x.iter()
                for _ in range(int(r.integers(0, 5))):
                    x.next()
                x.opt = 2 * x.opt  # must not matter
                x.all()
                x.len()
    for k in range(rec.n(3, 10)):
        with rec.trace("long run %d" % k) as t:
            steps = int(r.integers(800, 2500))
            x = Subject(t, 0.0, [1.0, 0.5, 7.0][k % 3], 0.1, False, [1.0, 0.5, 7.0][k % 3] * 10 / steps)
            x.len()
            x.all()
            x.next()
    for k in range(rec.n(60, 400)):
        with rec.trace("adaptive steps %d" % k) as t:
            start = float([0.0, r.uniform(-1, 2)][k % 2])
            x = Subject(t, start, start + float(r.uniform(0.1, 3)), float(r.choice([1.0, 0.5, 0.2])), True, 0.25)
            x.len()
            opts = r.uniform(0.1, 1.5, 200)
            if k % 3 == 0:
                opts[int(r.integers(0, 12))] = float(r.choice([0.0, 1e-13, 1e-14, -0.5]))
            x.all(limit=30, change=lambda i: opts[i])
            x.next()
            x.all(limit=30, change=lambda i: opts[-i - 1])
            x.next()
    for k in range(rec.n(4, 12)):
        with rec.trace("long adaptive run %d" % k) as t:
            start = float([0.0, r.uniform(-1, 2)][k % 2])
            steps = int(r.integers(300, 1100))
            x = Subject(t, start, start + [1.0, 60.0, 1e-4][k % 3], [0.5, 1.0][k % 2], True, 0.25)
            opts = r.uniform(0.2, 1.8, steps + 100) * [1.0, 60.0, 1e-4][k % 3] / steps * [2, 1][k % 2]
            if k % 4 == 1:  # two sizes that change rarely
                opts = np.repeat(opts[::40], 40)
            x.all(limit=3000, change=lambda i: opts[i % len(opts)])
            x.next()
    with rec.trace("too small fixed steps") as t:
        for o in (1e-13, 5e-12, 0.0 + 1e-15):
            x = Subject(t, 0.0, 1.0, 0.5, False, o)
            x.iter()
            x.next()
        x = Subject(t, 1.0, 1.0, 0.5, False, 0.1)
        x.len()
        x.iter()
        x.next()
        x = Subject(t, 1.0, 1.0 + 2e-13, 0.5, False, 0.1)
        x.iter()
        x.next()


def helpers(rec, r):
    for k in range(rec.n(40, 200)):
        with rec.trace("state dependent step %d" % k) as t:
            seen = []
            value = r.uniform(0, 1, 3)
            solution = core.DiscreteSolution(value, initial_time=float(r.uniform(0, 2)))

            def f(time, v):
                seen.append((time, np.array(v, copy=True)))
                return float(time + v.sum())

            step = core.DiscreteSolutionDependentTimeStep(f, solution)
            for _ in range(3):
                out = step()
                t.ev("dependent", [], [solution.time], solution.value, [seen[-1][0]], seen[-1][1], [out],
                     [float(solution.time + solution.value.sum())])
                solution.update(0.25, r.uniform(0, 1, 3))
            # the adaptive time stepping of a problem
            class Problem:
                start_time, end_time = 0.5, 2.0

            solution = core.DiscreteSolution(np.array([0.25]), initial_time=0.5)
            ts = core.get_adaptive_time_stepping(Problem, solution, f, 0.5, bool(k % 2))
            opts = [float(0.5 + 0.25)] if not k % 2 else []
            t.ev("new", ["adaptive" if k % 2 else "fixed"], [0.5, 2.0, 0.5], opts)
            it = iter(ts)
            t.ev("iter", [], [float(ts.time), ts.time_steps_number], [])
            for _ in range(12):
                o = float(solution.time + solution.value.sum())
                try:
                    dt = next(it)
                except StopIteration:
                    t.ev("next", ["stop"], [0.0, float(ts.time), ts.time_steps_number], [])
                    break
                t.ev("next", ["step"], [float(dt), float(ts.time), ts.time_steps_number], [o] if k % 2 else [])
                solution.update(dt, r.uniform(0, 0.5, 1))
            mesh = core.UniformMesh(core.Interval(0.0, 3.0), int(r.integers(2, 9)))
            ts = core.get_mesh_dependent_time_stepping(Problem, mesh, 0.3)
            t.ev("new", ["fixed"], [0.5, 2.0, 0.3], [float(mesh.step_length)])
            t.ev("len", [], [len(ts)], [])
            it = iter(ts)
            t.ev("iter", [], [float(ts.time), ts.time_steps_number], [])
            for _ in range(40):
                try:
                    dt = next(it)
                except StopIteration:
                    t.ev("next", ["stop"], [0.0, float(ts.time), ts.time_steps_number], [])
                    break
                t.ev("next", ["step"], [float(dt), float(ts.time), ts.time_steps_number], [])
        with rec.trace("CFL checker %d" % k) as t:
            m = int(r.integers(1, 5))
            opts = [float(x) for x in r.choice([0.5, 0.25, 0.75, 1.0], m)]
            times = [float(x) for x in r.uniform(0, 1, m)]
            values = [r.uniform(0, 1, 2) for _ in range(m)]
            seen = []

            def g(time, v):
                seen.append((time, float(v[0])))
                return opts[len(seen) - 1]

            dt = float(r.choice([0.25, 0.5, 0.6, 0.1]))
            try:
                core.CFLChecker(g)(dt, times, *values)
                res = "passed"
            except core.CFLConditionViolatedError:
                res = "violated"
            t.ev("cfl", [res], [dt], opts, times, [s[0] for s in seen], [float(v[0]) for v in values],
                 [s[1] for s in seen])


def solved(rec, r):
    """Whole runs, some a long time after zero."""
    for k in range(rec.n(24, 120)):
        with rec.trace("solver's clock %d" % k) as t:
            start = float([0.0, 2.0**20, -1.0, 3.0e5, 2.0**30, -2.0**20][gen.mix(k, 6, "start")])
            n = int(r.integers(4, 9))
            tick = 2.0 ** [0, -12, -8, -12, 0, -9][gen.mix(k, 6, "start")]
            step = 2.0 ** -4 * tick
            stop = start + step * (int(r.integers(1, 7)) + [0.0, 0.5, 2.0**-6][k % 3])
            u = gen.scalar_data(r, n) if k % 2 else gen.swe_data(r, n)
            bench = (CellData("advection", u, bc="periodic", dx=1.0, start_time=start, end_time=stop) if k % 2 else
                     SweCellData(u, bottom=np.zeros(n), bc="periodic", dx=1.0, g=1.0, start_time=start, end_time=stop))
            solver = (SCALAR_FV if k % 2 else SWE)["llf"](bench, mesh_size=n, cfl_number=step, save_history=True,
                                                          ode_solver_type=ODE[["euler", "heun", "ssp3"][gen.mix(k, 3)]])
            solver.solve(disable=True, leave=False)
            t.ev("solved", [], [start, stop, step], np.asarray(solver.solution.time_history, float), [float(solver.solution.time)],
                 note="from %r to %r by %r" % (start, stop, step))


def drive(rec):
    r = gen.rng(rec.seed, "C03")
    solved(rec, r)
    behaviours(rec, r)
    histories(rec, r)
    helpers(rec, r)


def models(rec):
    ok, states, text = qspec.model_run("model_ts", "model_ts.qnt", ["inv"], 20, rec.n(2000, 20000), rec.seed)
    out = [dict(name="model_ts: random behaviours", ok=ok, states=states, transitions=states, text=text)]
    depth = rec.n(4, 7)
    ok, text = qspec.model_verify("model_ts", "model_ts.qnt", ["inv"], depth)
    out.append(dict(name="model_ts: all behaviours up to %d steps (Apalache)" % depth, ok=ok, states=0, text=text))
    return out
