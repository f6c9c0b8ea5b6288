"""C08: lives of discrete solutions, behaviours of the specification and random histories."""
import numpy as np

import gen
import qspec
from env import core

LEVEL = "model_checking"
RULE = ("every event is one public operation on a discrete solution (construct, update, set value, rejected update, "
        "caller-side mutation of everything handed in or out) with everything observable read afterwards")
ASSUMPTIONS = ["values handed in have the length of the initial value; coarsening degrees divide it",
               "a rejected update of a solution whose length is not divisible is outside the claim"]


class Life:
    def __init__(self, t, kept, deg, value, time, explicit=True):
        self.t, self.kept, self.deg = t, kept, deg
        self.cols = 1 if value.ndim == 1 else value.shape[1]
        self.handed = [value]
        kw = {"initial_time": time} if explicit else {}
        plain = core.DiscreteSolution(value, **kw)
        if deg == 1:
            self.sol = core.DiscreteSolutionWithHistory(plain) if kept else plain
        else:
            self.sol = core.CoarseSolutionWithHistory(plain, deg) if kept else core.CoarseSolution(plain, deg)
        self.observe("new", "accepted", time, value)

    def observe(self, kind, outcome, time, value):
        s = self.sol
        self.out = [s.value]
        d = s.dimension
        dim = [int(x) for x in d] if isinstance(d, tuple) else [int(d)]
        vecs = [[self.deg, self.cols, float(time)], np.array(value, float), [float(s.time)], self.out[0].copy(), dim]
        if self.kept:
            hist, times, steps = s.value_history, s.time_history, s.time_step_history
            self.out += [hist, times, steps]
            vecs += [np.array(times, float), np.array(steps, float)] + [np.array(x, copy=True) for x in hist]
        self.t.ev(kind, [outcome, "history" if self.kept else "plain"], *vecs,
                  note="%s(%r, %s) -> %s" % (kind, time, np.array(value).tolist(), outcome))

    def do(self, kind, value, time, default=False):
        self.handed.append(value)
        try:
            if kind == "update":
                self.sol.update(time, value)
            elif default:
                self.sol.set_value(value)
            else:
                self.sol.set_value(value, time=time)
            outcome = "accepted"
        except ValueError:
            outcome = "rejected"
        self.observe(kind, outcome, time, value.copy())

    def quiet(self, value, time):
        self.sol.update(time, value)
        self.t.ev("quiet", ["accepted", "history" if self.kept else "plain"], [self.deg, self.cols, float(time)],
                  np.array(value, float), [float(self.sol.time)])

    def parts(self):
        s = self.sol
        times, steps, states = np.array(s.time_history), np.array(s.time_step_history), np.array(s.value_history)
        for i in range(0, len(times), 60):
            self.t.ev("part", ["accepted", "history"], [i, len(states)], times[i:i + 60], steps[i:i + 60][:max(0, len(times[i:i + 60]) - 1)], *states[i:i + 60])

    def mutate(self):
        for x in self.handed + self.out:
            x += 1000.0
        for x in self.out + self.handed:
            x *= -1.5
        self.observe("mutate", "accepted", 0.0, np.zeros(1))


def array(v, cols):
    a = np.array([np.nan if x == qspec.NAN else float(x) for x in v])
    return a if cols == 1 else a.reshape(-1, cols)


def drive(rec):
    r = gen.rng(rec.seed, "C08")
    for k, states in enumerate(qspec.mbt_traces("model_sol", "model_sol.qnt", rec.n(12, 24), rec.n(150, 800), rec.seed)):
        with rec.trace("behaviour %d" % k) as t:
            unit = [1.0, 0.1, 0.25][gen.mix(k, 3)]
            s0 = states[0]
            cols, deg = s0["s"]["cols"], s0["s"]["deg"]
            x = Life(t, s0["s"]["kept"], deg, array(s0["last"]["v"], cols), s0["last"]["t"] * unit)
            for s in states[1:]:
                a = s["last"]
                if a["kind"] == "mutate":
                    x.mutate()
                else:
                    x.do(a["kind"], array(a["v"], cols), a["t"] * unit)
    for k in range(rec.n(120, 1000)):
        with rec.trace("history %d" % k) as t:
            deg = [1, 1, 2, 3][gen.mix(k, 4)]
            n = deg * int(r.integers(1, 5))
            shape = (n, 2) if r.uniform() < 0.4 else (n,)
            start = float([0.0, 0.5, r.uniform(-1, 1)][gen.mix(k, 3)])
            x = Life(t, bool(r.integers(0, 2)), deg, r.uniform(-1, 1, shape), start, explicit=start != 0.0)
            for j in range(int(r.integers(1, 12))):
                what = r.uniform()
                v = r.uniform(-2, 2, shape)
                if what < 0.5:
                    x.do("update", v, float(r.choice([0.1, 0.25, r.uniform(0, 1)])))
                elif what < 0.65:
                    back = x.sol.time_history[int(r.integers(0, len(x.sol.time_history)))] if x.kept and r.uniform() < 0.6 \
                        else float(x.sol.time + r.uniform(-1.5, 0.7))
                    x.do("set", v, float(back))
                elif what < 0.7:
                    x.do("set", v, 0.0, default=True)
                elif what < 0.85:
                    v.flat[int(r.integers(0, v.size))] = r.choice([np.nan, np.inf, -np.inf])
                    if r.uniform() < 0.5:
                        x.do("update", v, 0.1)
                    else:
                        x.do("set", v, float(x.sol.time - r.uniform(0, 1)))
                else:
                    x.mutate()
    for k, many in enumerate([1100, 400] if not rec.thorough else [2200, 1100, 600, 600]):
        with rec.trace("long life %d" % k) as t:
            deg = 1 + k % 2
            x = Life(t, True, deg, r.uniform(-1, 1, (deg,)), 0.0)
            for j in range(many):
                x.quiet(r.uniform(-1, 1, (deg,)), float(r.choice([0.125, r.uniform(0.001, 1)])))
                if j in (many // 2, many - 1):
                    x.parts()
            x.do("set", np.full(deg, 0.5), float(x.sol.time_history[7]))


def models(rec):
    ok, states, text = qspec.model_run("model_sol", "model_sol.qnt", ["inv"], 14, rec.n(3000, 30000), rec.seed)
    return [dict(name="model_sol: random lives", ok=ok, states=states, transitions=states, text=text)]
