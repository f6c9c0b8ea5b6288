"""C07: Runge-Kutta methods, observed through the right-hand sides they call."""
import numpy as np

import gen
import qspec
from env import core, finite_element
from schemes import ODE

LEVEL = "model_checking"
RULE = ("every event is one tableau read off an integrator, one step, one (re-)initialisation or one look at the "
        "values handed in; right-hand sides are random scalar or vector functions of time and state")
ASSUMPTIONS = ["order of the tableaus of the specification is checked on all 5914 labelled rooted trees up to eight vertices"]


def flat(x):
    return np.atleast_1d(np.asarray(x, float)).ravel()


class Rhs:
    def __init__(self, f):
        self.f, self.log = f, []

    def __call__(self, t, x):
        y = self.f(t, x)
        self.log.append((float(t), flat(x).copy(), flat(y).copy()))
        return y


def functions(r, shape):
    a, b, c = r.uniform(-1, 1, 3)
    m = r.uniform(-1, 1)
    return [lambda t, x: m * np.clip(x, -4, 4), lambda t, x: 0 * x + t**3 - t, lambda t, x: np.sin(3 * t) * np.clip(x, -4, 4) + a,
            lambda t, x: a * np.clip(x, -2, 2) ** 2 + b * t, lambda t, x: 1.0 * x * 0 + r.uniform(-2, 2, shape) if shape else float(r.uniform(-2, 2)),
            lambda t, x: c * x / (1 + x * x) + t][int(r.integers(0, 6))]


def drive(rec):
    r = gen.rng(rec.seed, "C07")
    for name, cls in ODE.items():
        with rec.trace("tableau " + name) as t:
            s = {"euler": 1, "heun": 2, "ssp3": 3, "rk8": 11}[name]
            for again in range(2):
                calls = []

                def unit(time, x):
                    calls.append((time, np.array(x, copy=True)))
                    e = np.zeros(16)
                    e[len(calls) - 1] = 1.0
                    return e

                ode = cls(unit, np.zeros(16))
                ode.execute(1.0)
                t.ev("tableau", [name], *[x[1][:s] for x in calls], ode.solution[:s], [x[0] for x in calls])
    for k in range(rec.n(140, 1200)):
        name = list(ODE)[gen.mix(k, 4)]
        with rec.trace("integration %s %d" % (name, k)) as t:
            shape = [(), (3,), (2, 2), (1,), (5,)][int(r.integers(0, 5))]
            start = float([0.0, 1.25, r.uniform(-2, 2)][gen.mix(k, 3)])
            x0 = r.uniform(-1, 1, shape) if shape else float(r.uniform(-1, 1))
            keep = np.array(x0, copy=True)
            rhs = Rhs(functions(r, shape))
            kw = {} if start == 0.0 and k % 2 else {"initial_time": start}
            ode = ODE[name](rhs, x0, **kw)
            t.ev("init", [name], flat(x0), [start], flat(ode.solution), [float(ode.time)])
            handed = [(x0, keep)]
            for j in range(int(r.integers(1, 9))):
                if r.uniform() < 0.25:
                    start = float(r.choice([0.0, 0.5, r.uniform(-2, 2)]))
                    x0 = r.uniform(-1, 1, shape) if shape else float(r.uniform(-1, 1))
                    if r.uniform() < 0.3:  # from what it has, at another time
                        x0 = np.array(ode.solution, copy=True)
                    handed.append((x0, np.array(x0, copy=True)))
                    if start == 0.0:
                        ode.reinitialize(x0)
                    else:
                        ode.reinitialize(x0, start) if j % 2 else ode.reinitialize(x0, initial_time=start)
                    t.ev("reinit", [], flat(x0), [start], flat(ode.solution), [float(ode.time)])
                    continue
                rhs.log = []
                dt = float(r.choice([0.1, 0.5, 0.01, r.uniform(0, 1)]))
                ode.execute(dt)
                t.ev("step", [], [dt, float(ode.time)], flat(ode.solution), [x[0] for x in rhs.log],
                     [float(x) for x in ode.time_nodes], *[x[1] for x in rhs.log],
                     *[flat(x) for x in ode.stage_values], *[x[2] for x in rhs.log],
                     note="%s dt=%r %d evaluations" % (name, dt, len(rhs.log)))
            for now, before in handed:
                t.ev("untouched", [], flat(now), flat(before))
    with rec.trace("optimal integrators") as t:
        names = {v: k for k, v in ODE.items()}
        for p in range(1, 8):
            space = finite_element.LagrangeSpace(core.UniformMesh(core.Interval(0, 1), 3), p)
            t.ev("optimal", [names.get(finite_element.build_optimal_ode_solver(space), "unknown")], [p])


def models(rec):
    ok, states, text = qspec.model_run("model_rk", "model_rk.qnt", ["order_conditions", "nodes_are_row_sums"], 5913, 1, rec.seed)
    return [dict(name="model_rk: order conditions of all tableaus on all rooted trees up to eight vertices",
                 ok=ok, states=5914, transitions=5913, text=text)]
