"""C17: the problems the code is run on."""
from fractions import Fraction

import numpy as np

import gen
from env import core  # noqa: F401

from benchmark import advection, burgers, shallow_water as water

LEVEL = "exploration"
RULE = ("every event is one problem's data, exact solution, boundary or parameters at random places, times, parameters "
        "and seeds")
ASSUMPTIONS = ["Burgers' exact solution is sampled up to 0.9 of the time of shock formation (see the known findings for later times)",
               "next to the fronts of a dam break either side is accepted"]


def grid(b, n):
    a, length = float(b.domain.a), float(b.domain.length)
    return [a + length * i / n for i in range(n + 1)]


def refused(f):
    try:
        f()
    except AttributeError:
        return 1
    return 0


def pair(y):
    y = np.asarray(y, float)
    return float(y[0]), float(y[1])


def common(t, b, problem, seed_text=""):
    """What every problem promises."""
    name = type(b).__name__ + seed_text
    t.ev("names", [problem, b.problem], [0])
    t.ev("names", [type(b).__name__, repr(b)], [0])
    t.ev("span", [], [float(b.domain.a), float(b.domain.b), float(b.start_time), float(b.end_time)], note=name)
    c = b.boundary_conditions
    t.ev("conditions", list(c), [len(c)], note=name)
    t.ev("finite", [], [np.atleast_1d(np.asarray(b.initial_data(x), float)) for x in grid(b, 60)], note=name)
    bottom = (lambda x: [float(b.bathymetry(x))]) if problem == "shallow_water" else lambda x: [0.0]
    t.ev("ends", list(c), np.atleast_1d(b.initial_data(b.domain.a)), np.atleast_1d(b.initial_data(b.domain.b)),
         bottom(b.domain.a), bottom(b.domain.b), note=name)
    both = (c[0], c[-1])
    for side, cond, get, x in (("left", both[0], b.inflow_left, b.domain.a), ("right", both[1], b.inflow_right, b.domain.b)):
        for time in (b.start_time, b.start_time + 0.3 * (b.end_time - b.start_time), b.end_time):
            missing = refused(lambda: get(time))
            at = np.atleast_1d(np.asarray(get(time), float)) if not missing else np.zeros(0)
            t.ev("inflow", [cond, "start" if time == b.start_time else "later", problem], [missing], at,
                 np.atleast_1d(np.asarray(b.initial_data(x), float)), note=name + " " + side)
    d = b.as_dict()
    t.ev("names", [type(b).__name__, str(d["name"])], [0])
    t.ev("recorded", [], [float(b.start_time), float(b.end_time), float(b.domain.a), float(b.domain.b)],
         [float(d["start_time"]), float(d["end_time"]), float(d["domain"].a), float(d["domain"].b)], note=name)
    if problem == "shallow_water":
        t.ev("positive", [], [pair(b.initial_data(x))[0] for x in grid(b, 150)], note=name)


def solved(t, b, times, points, r):
    """Problems with an exact solution."""
    name = type(b).__name__
    xs = [float(r.uniform(b.domain.a, b.domain.b)) for _ in range(points)] + [float(b.domain.a), float(b.domain.b)]
    t.ev("start", [], [np.atleast_1d(b.exact_solution(x, 0.0)) for x in xs], [np.atleast_1d(b.initial_data(x)) for x in xs],
         note=name)
    t.ev("end", [], [np.atleast_1d(b.exact_solution_at_end_time(x)) for x in xs],
         [np.atleast_1d(b.exact_solution(x, b.end_time)) for x in xs], note=name)


def transport(rec, r):
    for key, cls in sorted(advection.BENCHMARKS.items()):
        for k in range(rec.n(2, 12)):
            with rec.trace("advection %s %d" % (key, k)) as t:
                end = float(r.uniform(0.3, 5))
                b = cls() if k == 0 else cls(end_time=end)
                if k:
                    t.ev("kept", [], [end], [float(b.end_time)])
                common(t, b, "advection")
                solved(t, b, 3, 12, r)
                t.ev("table", [], [float(b.initial_data(j / 64)) for j in range(64)])
                j, m = r.integers(0, 64, 80), r.integers(0, 400, 80)
                t.ev("shifted", [], [int(x) for x in j], [int(x) for x in m],
                     [float(b.exact_solution(float(x) / 64, float(y) / 64)) for x, y in zip(j, m)])
                for _ in range(25):
                    x, time = float(r.uniform(0, 1)), float(r.uniform(0, 4))
                    o = float((Fraction(x) - Fraction(time)) % 1)
                    o = min(o, 1.0 - 2**-53)
                    e = 2.0**-46
                    t.ev("moved", [], [x, time, o], [float(b.exact_solution(x, time))],
                         [float(b.initial_data((o + s) % 1.0)) for s in (-e, 0.0, e)])


def characteristics(rec, r):
    for key, cls in sorted(burgers.BENCHMARKS.items()):
        length = float(cls.domain.length)
        probe = cls()
        n = 512
        u = [float(probe.initial_data(x)) for x in grid(probe, n)]
        tc = 1 / max((u[i] - u[i + 1]) / (length / n) for i in range(n))
        with rec.trace("burgers %s" % key) as t:
            common(t, cls(), "burgers")
        for k in range(rec.n(8, 60)):
            with rec.trace("burgers %s %d" % (key, k)) as t:
                end = float(tc * [0.9, 0.5, 0.97, 1.03, 3.0, 0.1, r.uniform(0.1, 0.97), r.uniform(1.02, 8)][gen.mix(k, 8)])
                b = cls(end_time=end)
                t.ev("kept", [], [end], [float(b.end_time)])
                t.ev("shock", [], [length / n, end, float(refused(lambda: b.exact_solution(float(b.domain.a), 0.0)))], u,
                     note="end=%r tc=%r" % (end, tc))
                t.ev("shock", [], [length / n, end, float(refused(lambda: b.exact_solution(0.3 * length, min(end, tc / 2))))], u)
                if end > tc:
                    continue
                if end <= 0.9 * tc:
                    solved(t, b, 3, 12, r)
                top = min(end, 0.9 * tc)
                for _ in range(3):
                    time = float(r.uniform(0, top)) if r.integers(0, 4) else top
                    xs = sorted(float(x) for x in r.uniform(b.domain.a, b.domain.b, 14))
                    us = [float(b.exact_solution(x, time)) for x in xs]
                    for x, y in zip(xs, us):
                        foot = x - y * time
                        t.ev("characteristic", [], [x, time, y, foot, float(b.initial_data(foot))], note="tc=%r" % tc)
                    t.ev("order", [], [time], xs, us)


# at these places Newton's method does not settle although the characteristics do not cross
LATE = [("smooth", 0.95, 3.258466172408485), ("smooth", 0.99, 3.3775552972981058), ("shock", 0.995, 0.5065145290772335),
        ("smooth", 0.999, 3.3480894375864785)]


def late(rec):
    for key, part, x in LATE:
        with rec.trace("burgers shortly before the shock: %s, %s of the critical time, x=%r" % (key, part, x)) as t:
            cls = burgers.BENCHMARKS[key]
            time = part * {"smooth": 1.0, "shock": 1 / (2 * np.pi)}[key]
            b = cls(end_time=time)
            try:
                y = float(b.exact_solution(x, time))
            except RuntimeError:
                y = float("nan")
            foot = x - y * time
            t.ev("characteristic", [], [x, time, y, foot if y == y else x - 0.0, float(b.initial_data(foot)) if y == y else y])


def steady_event(t, b, states, bottoms):
    h, q = zip(*[pair(s) for s in states])
    t.ev("steady", [], [float(b.gravitational_acceleration)], h, q, bottoms, note=repr(b))


def steady(rec, r):
    names = ["lake-at-rest-no-bathymetry", "lake-at-rest", "moving-water-no-bathymetry", "moving-water-bump-bathymetry"]
    for k in range(rec.n(12, 80)):
        with rec.trace("steady %d" % k) as t:
            name = names[gen.mix(k, 4)]
            cls = water.BENCHMARKS[name]
            kw = {}
            if k >= 4:
                kw["end_time"] = float(r.uniform(0.1, 50))
            if name.startswith("moving-water-bump") and k >= 4:
                kw |= {"K1": float(r.choice([1.0, -1.0, 0.5, r.uniform(-3, 3), 0.0])), "K2": float(r.uniform(15, 60))}
            b = cls(**kw)
            for key, x in kw.items():
                t.ev("kept", [], [x], [float(getattr(b, key))], note=key)
            solved(t, b, 3, 10, r)
            xs = grid(b, 40) + [float(x) for x in r.uniform(b.domain.a, b.domain.b, 40)]
            steady_event(t, b, [b.initial_data(x) for x in xs], [float(b.bathymetry(x)) for x in xs])
            time = float(r.uniform(0, b.end_time))
            steady_event(t, b, [b.exact_solution(x, time) for x in xs], [float(b.bathymetry(x)) for x in xs])
            if "K1" in dir(b):
                for x in xs[::7]:
                    t.ev("level", [], [float(b.K1), float(b.K2)],
                         [float(b.gravitational_acceleration), *pair(b.initial_data(x)), float(b.bathymetry(x))])


def dam(rec, r):
    for k in range(rec.n(14, 120)):
        with rec.trace("dam break %d" % k) as t:
            kw = {}
            if k:
                hl = float(r.uniform(0.2, 8))
                kw = {"h_left": hl, "h_right": hl * float(r.choice([r.uniform(0.05, 0.95), 10 ** r.uniform(-3, -0.01), 0.1384])),
                      "g": float(r.choice([1.0, 9.81, 9.812, r.uniform(0.5, 12)])), "L": float(r.uniform(0.5, 20))}
                kw["x_dam"] = kw["L"] * float(r.choice([0.5, r.uniform(0.1, 0.9)]))
                kw["end_time"] = float(r.uniform(0.05, 1)) * kw["L"] / 2 / np.sqrt(kw["g"] * hl)
            b = water.BENCHMARKS["damm-break"](**kw)
            p = {"h_left": 1.0, "h_right": 0.1, "x_dam": 0.5, "L": 1.0, "g": 1.0} | kw
            common(t, b, "shallow_water")
            t.ev("kept", [], [p["g"]], [float(b.gravitational_acceleration)])
            t.ev("kept", [], [p["L"]], [float(b.domain.length)])
            if "end_time" in kw:
                t.ev("kept", [], [kw["end_time"]], [float(b.end_time)])
            solved(t, b, 3, 12, r)
            xs = grid(b, 24) + [float(x) for x in r.uniform(b.domain.a, b.domain.b, 24)]
            for time in (None, 0.0):
                h, q = zip(*[pair(b.initial_data(x) if time is None else b.exact_solution(x, 0.0)) for x in xs])
                t.ev("released", [], [p["h_left"], p["h_right"], p["x_dam"]], xs, h, q)
            for time in (b.end_time, float(r.uniform(0.01, 1)) * b.end_time):
                c = float(np.sqrt(p["g"] * p["h_left"]))
                ys = xs + [p["x_dam"] + time * c * float(s) for s in r.uniform(-1.2, 2.2, 30)]
                h, q = zip(*[pair(b.exact_solution(x, time)) for x in ys])
                t.ev("dam", [], [p["h_left"], p["h_right"], p["g"], p["x_dam"], time], ys, h, q, note=repr(p))


KEYS = ["height_average", "height_amplitude", "height_phase_shift", "height_wave_number",
        "velocity_average", "velocity_amplitude", "velocity_phase_shift", "velocity_wave_number"]


def parameters(b):
    return [float(getattr(b, k)) for k in KEYS]


def oscillation_event(t, b, r):
    xs = grid(b, 12) + [float(x) for x in r.uniform(b.domain.a, b.domain.b, 20)]
    h, q = zip(*[pair(b.initial_data(x)) for x in xs])
    p = parameters(b)
    t.ev("oscillation", [], [float(b.domain.length)], p[:4], p[4:], xs, h, q, note=repr(b))
    d = b.as_dict()
    t.ev("recorded", [], p, [float(d[k]) for k in ("h0", "Ah", "ph", "kh", "v0", "Av", "pv", "kv")], note=repr(b))


def draw(r, key):
    """A value for a parameter, such that heights stay positive."""
    return {"average": lambda: float(r.uniform(1, 3)), "amplitude": lambda: float(r.uniform(-0.8, 0.8)),
            "shift": lambda: float(r.uniform(-7, 7)), "number": lambda: int(r.integers(1, 9))}[key.split("_")[-1]]()


def oscillations(rec, r):
    for k in range(rec.n(16, 100)):
        with rec.trace("oscillation %d" % k) as t:
            given = {} if k == 0 else {x: draw(r, x) for x in KEYS if r.integers(0, 2)}
            for x in list(given):
                if k % 3 == 1 and x.split("_")[-1] != "average" and r.integers(0, 2):
                    given[x] = 0  # explicit zeros count
            if k % 2:
                given["end_time"] = float(r.uniform(1, 50))
            b = water.BENCHMARKS["oscillation"](**given)
            for x, y in given.items():
                t.ev("kept", [], [float(y)], [float(getattr(b, x))], note=x)
            twin = water.BENCHMARKS["oscillation"](**given)
            t.ev("same", [], parameters(b) + [float(b.end_time)], parameters(twin) + [float(twin.end_time)])
            common(t, b, "shallow_water")
            oscillation_event(t, b, r)
            t.ev("absent", [], [refused(lambda: b.exact_solution(1.0, 1.0))])
    for key in ("b1", "b2", "b3", "b4", "b5"):
        with rec.trace("oscillation %s" % key) as t:
            b = water.BENCHMARKS[key]()
            common(t, b, "shallow_water")
            oscillation_event(t, b, r)


def randoms(rec, r):
    cls = water.BENCHMARKS["random"]
    for k in range(rec.n(30, 250)):
        with rec.trace("random problem %d" % k) as t:
            seed = [0, 1, int(r.integers(0, 100)), int(r.integers(0, 10**9))][gen.mix(k, 4)]
            given = {x: draw(r, x) for x in KEYS if k % 3 and r.integers(0, 3) == 0}
            if k % 2:
                given["end_time"] = float(r.uniform(1, 50))
            b = cls(seed, **given)
            np.random.seed(int(r.integers(0, 1000)))  # nothing but the seed counts
            cls(int(r.integers(0, 1000)))
            twin = cls(seed=seed, **given)
            note = "seed=%d %r" % (seed, given)
            t.ev("same", [], parameters(b) + [float(b.end_time)], parameters(twin) + [float(twin.end_time)], note=note)
            xs = [float(x) for x in r.uniform(0, 100, 6)]
            t.ev("same", [], [pair(b.initial_data(x)) for x in xs], [pair(twin.initial_data(x)) for x in xs], note=note)
            b.initial_data(3.0)
            t.ev("same", [], parameters(b), parameters(twin), note=note)
            for x, y in given.items():
                t.ev("kept", [], [float(y)], [float(getattr(b, x))], note=note + " " + x)
            t.ev("kept", [], [float(seed)], [float(b.seed)])
            t.ev("recorded", [], [float(seed)], [float(b.as_dict()["seed"])])
            if len(given) < 4:
                t.ev("other", [], parameters(b), parameters(cls(seed + 1 + int(r.integers(0, 50)), **given)), note=note)
            common(t, b, "shallow_water", " %d" % seed)
            oscillation_event(t, b, r)


def sequences(rec, r):
    make = water.RandomBenchmarkGenerator
    for k in range(rec.n(14, 80)):
        with rec.trace("sequence of random problems %d" % k) as t:
            seed = [0, 1, int(r.integers(0, 10**6))][gen.mix(k, 3)]
            kw = {x: draw(r, x) for x in KEYS if r.integers(0, 4) == 0} if k % 2 else {}
            end = float(r.uniform(1, 50)) if k % 4 > 1 else None
            if end:
                kw["end_time"] = end
            one, two = make(seed, **kw), make(seed=seed, **kw)
            n = int(r.integers(2, 6))
            first = [one() for _ in range(n)]
            np.random.seed(3)
            make(int(r.integers(0, 99)))()
            second = []
            for i in range(n):
                b = two()
                b.initial_data(1.0)
                second.append(b)
            t.ev("sequence", [], [[float(b.seed)] + parameters(b) + [float(b.end_time)] for b in first],
                 [[float(b.seed)] + parameters(b) + [float(b.end_time)] for b in second], note="seed=%d %r" % (seed, kw))
            t.ev("other", [], parameters(first[0]), parameters(first[1]))
            for b in first:
                for x, y in kw.items():
                    t.ev("kept", [], [float(y)], [float(getattr(b, x))], note=x)
                alone = water.BENCHMARKS["random"](b.seed, **({"end_time": b.end_time} | kw))
                t.ev("same", [], parameters(b), parameters(alone))
            # asked for a particular seed
            s = int(r.integers(1, 10**6))
            b, alone = one(s), water.BENCHMARKS["random"](s, **({"end_time": first[0].end_time} | kw))
            t.ev("same", [], [float(b.seed)] + parameters(b), [float(s)] + parameters(alone))
            t.ev("sequence", [], parameters(one()), parameters(two()))  # which does not disturb the sequence
            oscillation_event(t, b, r)


def zeros(rec):
    """Explicit zeros given to random problems, one by one."""
    for x in KEYS:
        if x == "height_average":  # no water
            continue
        with rec.trace("random problem with %s zero" % x) as t:
            b = water.BENCHMARKS["random"](1, **{x: 0})
            t.ev("kept", [], [0.0], [float(getattr(b, x))])
    with rec.trace("generator asked for seed zero") as t:
        b = water.RandomBenchmarkGenerator(5)(seed=0)
        t.ev("same", [], parameters(b), parameters(water.BENCHMARKS["random"](0)))


def others(rec):
    for module, problem in ((advection, "advection"), (burgers, "burgers"), (water, "shallow_water")):
        for key, cls in sorted(module.BENCHMARKS.items()):
            with rec.trace("problem %s %s" % (problem, key)) as t:
                b = cls(seed=3) if key == "random" else cls()
                common(t, b, problem)
                twin = cls(seed=3) if key == "random" else cls()
                xs = grid(b, 30)
                t.ev("same", [], [np.atleast_1d(b.initial_data(x)) for x in xs], [np.atleast_1d(twin.initial_data(x)) for x in xs])
        for key, cls in sorted(module.BENCHMARK_DEFAULTS.items()):
            with rec.trace("default problem %s %s" % (problem, key)) as t:
                common(t, cls(), problem)


def drive(rec):
    r = gen.rng(rec.seed, "C17")
    transport(rec, r)
    characteristics(rec, r)
    late(rec)
    steady(rec, r)
    dam(rec, r)
    oscillations(rec, r)
    randoms(rec, r)
    sequences(rec, r)
    zeros(rec)
    others(rec)
