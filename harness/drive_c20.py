"""C20: plots and animations of random shows, sequences of commands, command lines."""
import cProfile
import importlib.machinery
import importlib.util
import os
import pickle
import shutil
import sys
import tempfile
import types

import numpy as np

import gen
import pictures
import qspec
import runs
from env import core, swe, SCALAR_FV, FE, REPO, SWE
from pictures import observed, plt

from benchmark import advection, burgers, shallow_water
from command import animate, error_evolution, plot

LEVEL = "exploration"
RULE = ("an event is one figure's axes as saved or shown, one frame of an animation, one file of saved data, or what was said "
        "and shown; random problems with polynomial data, real solvers, dyadic times")
ASSUMPTIONS = ["figures are read at matplotlib's interface (savefig, show, a movie writer which records the frames)",
               "times are dyadic, so that regular times and records coincide exactly or clearly differ"]


def value(c, x, t):
    return float(c[0] + c[1] * x + c[2] * x * x + t * (c[3] + c[4] * x))


class Scalar(core.Benchmark):
    """A scalar problem with polynomial data."""

    def __init__(self, show, problem, bc):
        self.problem, self.s, self._boundary_conditions = problem, show, bc
        self.domain = core.Interval(show.a, show.b)
        self.start_time, self.end_time = show.start, show.stop

    def initial_data(self, x):
        return value(self.s.ih, x, 0)

    def inflow_left(self, t):
        return 0.25

    def inflow_right(self, t):
        return -0.25

    def exact_solution(self, x, t):
        if not self.s.exact:
            raise AttributeError("There is none.")
        return value(self.s.eh, x, t)


class Water(swe.ShallowWaterBenchmark):
    """A shallow water problem with polynomial data."""

    def __init__(self, show, bc):
        self.s, self._boundary_conditions = show, bc
        self.domain = core.Interval(show.a, show.b)
        self.start_time, self.end_time = show.start, show.stop
        self.gravitational_acceleration = 1.0

    def bathymetry(self, x):
        return value(self.s.bottom, x, 0)

    def initial_data(self, x):
        return np.array([value(self.s.ih, x, 0), value(self.s.iq, x, 0)])

    def exact_solution(self, x, t):
        if not self.s.exact:
            raise AttributeError("There is none.")
        return np.array([value(self.s.eh, x, t), value(self.s.eq, x, t)])


class Show:
    """A random problem and its solvers."""

    def __init__(self, r, k, moving):
        self.moving, self.water = moving, bool(gen.mix(k, 2, "kind"))
        self.a = float(r.choice([0.0, -1.0, 2.0]))
        self.b = self.a + float(r.choice([1.0, 2.0, 4.0]))
        self.start = float(r.choice([0.0, 0.0, 0.5, -0.25])) if moving else float(r.choice([0.0, 0.25]))
        self.stop = self.start + float(r.choice([0.25, 0.5]))
        self.initial, self.exact = bool(gen.mix(k // 2, 2, "initial")), bool(gen.mix(k // 2, 2, "exact"))
        self.points, self.steps = int(r.integers(2, 9)), int(r.choice([2, 3, 5, 17, 33]))
        far = max(abs(self.a), abs(self.b))
        c = r.uniform(-0.5, 0.5, (5, 5)) / np.array([1, far, far ** 2, 1, far])
        self.ih, self.iq, self.eh, self.eq, self.bottom = c
        if self.water:
            self.ih[:3] *= 0.2
            self.ih[0] += 2
            self.iq *= 0.4
            self.eh[0] += 3
            self.bottom[3:] = 0
            self.bottom *= 0.3
            if gen.mix(k // 4, 3, "bottom") == 0:
                self.bottom[1:3] = 0
            elif gen.mix(k // 4, 3, "bottom") == 1:
                self.bottom[0] += 4  # high ground
        self.bottom[3:] = 0
        thin = self.water and gen.mix(k, 5, "thin") == 0
        if thin:  # little water on flat ground
            for c in (self.ih, self.iq, self.eh, self.eq):
                c *= 2.0 ** [-15, -24][gen.mix(k, 2, "film")]
            self.bottom[1:] = 0
        bc = ["periodic", ("outflow", "outflow")][int(r.integers(0, 2))]
        self.benchmark = Water(self, bc) if self.water else Scalar(self, ["advection", "burgers"][int(r.integers(0, 2))], bc)
        self.solvers, self.facts = [], []
        length = self.b - self.a
        for j in range(int(r.integers(0, 4)) if k % 5 else 3):
            n = int(r.choice([2, 4])) * int(r.choice([1, 2])) if moving else int(r.integers(2, 9)) if gen.mix(k, 8, "large") else 300
            dx = length / n
            dt = float(r.choice([8, 16, 11, 12, 13, 14, 15])) / 256 if moving else float(r.uniform(0.02, 0.07))
            if n == 300:
                dt = dx * 0.1
            kw = dict(mesh_size=n, cfl_number=dt / dx, save_history=moving or bool(r.integers(0, 2)),
                      short="curve %d" % j if r.integers(0, 2) else "ABC"[j], name="some solver")
            fails = k % 15 == 5 * (1 + j) % 15 and k % 5 == 0 or bool(r.uniform() < 0.15)  # the first or the second of three
            if fails:
                kw["cfl_number"] = (self.stop - self.start) / 2 / dx * 0.999
            p = deg = 1
            if self.water:
                which = ["llf", "low-order", "es1", "coarse", "mcl"][int(r.integers(0, 5))]
                which = "llf" if fails or thin and which == "es1" else which
                if which == "coarse":
                    deg = 2
                    kw["coarsening_degree"] = 2
                    kw["mesh_size"] = n = n + n % 2
                    kw["cfl_number"] = dt / (length / n)
                solver = SWE[which](self.benchmark, **kw)
            elif bc == "periodic" and r.integers(0, 2) and n < 300:
                p = int(r.integers(1, 4))
                solver = FE["cg"](self.benchmark, polynomial_degree=p, **kw)
            else:
                solver = SCALAR_FV[["llf", "central", "mcl-fv"][int(r.integers(0, 3))]](self.benchmark, **kw)
            if fails:
                self.spoil(solver, int(r.integers(0, 3)))
            if gen.mix(k, 3, "points") == 0 and len(solver.solution.grid) > 1:
                self.points = len(solver.solution.grid)
            self.solvers.append(solver)
            self.facts.append((kw["short"], "nodes" if solver.__class__ is FE["cg"] else "cells", fails, length / n, n, p, deg))

    def spoil(self, solver, after):
        """A solver whose values are no longer finite after some steps."""
        update, left = solver.solution.update, [after]

        def limited(time_step, value):
            left[0] -= 1
            update(time_step, value if left[0] >= 0 else np.full(np.shape(value), np.nan))

        solver.solution.update = limited

    def describe(self, t, first, note):
        t.ev("show", ["animation" if self.moving else "plot", "swe" if self.water else "scalar",
                      "yes" if self.initial else "no", "yes" if self.exact else "no", "polynomials"],
             [self.a, self.b, self.start, self.stop, first], [self.points, self.steps],
             self.ih, self.iq, self.eh, self.eq, self.bottom, note=note)
        for solver, (label, kind, fails, dx, n, p, deg) in zip(self.solvers, self.facts):
            s = solver.solution
            times = np.asarray(s.time_history, float) if self.moving else np.array([float(s.time)])
            values = np.asarray(s.value_history if self.moving else [s.value], float)
            t.ev("solver", [label, kind, "fails" if fails else "ends"], [dx], [n, p, deg], times,
                 values[:, :, 0] if self.water else values, values[:, :, 1] if self.water else [],
                 [float(s.time)], [], note=note)


def curves(t, axis, where, axes, k=0, note=""):
    text = [float(x.split("=")[1]) for x in axes.get("texts", []) if x.startswith("T=")]
    t.ev("curves", [axis, where] + [l for l, _, _ in axes["lines"]] + ["|"] + axes.get("legend", []), [k], text or [0.0],
         axes.get("limits", [0.0, 0.0]), *[v for _, x, y in axes["lines"] for v in (x, y)], note=note)


def judge_pictures(t, saved, water, note):
    for name, content in saved:
        axis = {"_h": "h", "_q": "q", "_v": "v"}.get(os.path.splitext(name)[0][-2:], "u") if water else "u"
        t.ev("picture", [axis], [0, len(content), 1, 0], [], note=note)
        if content:
            curves(t, axis, "picture", content[0], note=note)


def judge_data(t, root, name, water, note, wanted=True):
    """Files of saved data: those and only those which are asked for."""
    path, name = os.path.join(root, os.path.dirname(name)), os.path.basename(name)
    files = sorted(os.listdir(path))
    t.ev("files", ["data", "yes" if wanted else "no"] + pictures.endings(files, name), [0], note=note)
    for f in files:
        with open(os.path.join(path, f), "rb") as h:
            content = pickle.load(h)
        axis = os.path.splitext(f)[0][-1] if water else "u"
        curves(t, axis, "data", dict(lines=[(str(l), np.atleast_1d(np.asarray(c["xdata"], float)),
                                             np.atleast_1d(np.asarray(c["ydata"], float))) for l, c in content.items()]), note=note)


def plotted(t, show, k, directory):
    """Plot a show; judge pictures, data, words, windows."""
    wanted = bool(gen.mix(k, 2, "window"))
    picture = os.path.join(directory, "out.%d" % k, ["picture.png", "pic.ture.png"][k % 2]) if gen.mix(k, 3, "picture") else None
    where = os.path.join(directory, "out.%d" % k)
    os.makedirs(where)
    data = os.path.join(where, ["data.pkl", "da.ta.pkl", "data"][gen.mix(k, 3, "dots")]) if gen.mix(k, 3, "data") else None
    if data and gen.mix(k, 2, "old"):  # left by another plot
        grid = np.linspace(show.a, show.b, show.points or 200)
        base, ending = os.path.splitext(data)
        for x in [base + y + ending for y in ("_h", "_q", "_v")] if show.water else [data]:
            with open(x, "wb") as f:
                pickle.dump({"old": dict(xdata=grid, ydata=0 * grid)}, f)
    talk = bool(gen.mix(k, 3, "talk"))
    done = bool(gen.mix(k, 2, "done")) and not any(f[2] for f in show.facts)
    if done:
        for s in show.solvers:
            runs.solve(s)
    label = "plot %d" % k
    solvers = show.solvers[0] if len(show.solvers) == 1 and k % 2 else show.solvers
    with observed() as seen:
        plotter = (plot.ShallowWaterPlotter if show.water else plot.ScalarPlotter)(
            show.benchmark, mesh_size=show.points, show=wanted, save_plot=picture, save_data=data)
        plot.Plot(show.benchmark, solvers, plotter, initial=show.initial, solver_executed=done, write_warnings=talk).execute()
    note = "%s: %s" % (label, ", ".join("%s %r" % (type(s).__name__, f) for s, f in zip(show.solvers, show.facts)))
    show.describe(t, show.start, note)
    axes = ["h", "q", "v"] if show.water else ["u"]
    empty = not (show.solvers or show.initial or show.exact)
    troubled = empty or not show.exact or any(f[2] for f in show.facts)
    t.ev("said", ["trouble is reported" if troubled else "no warning without reason", "wanted" if talk and troubled else "unwanted",
                  "said" if "WARNING" in seen.said else "silent"], [0], note=note)
    if empty:
        t.ev("empty", ["-", "-"], [len(seen.saved) + seen.windows], note=note)
        return
    t.ev("window", ["wanted" if wanted else "hidden"], [seen.windows, seen.left], note=note)
    saved = [(n, a) for n, a in seen.saved if n != "window"]
    t.ev("files", ["plot", "yes" if picture else "no"] + (pictures.endings([n for n, _ in saved], picture) if picture else [n for n, _ in saved]),
         [0], note=note)
    judge_pictures(t, saved, show.water, note)
    windows = [content for n, content in seen.saved if n == "window"]
    if wanted:  # heights, discharges, velocities in order of creation
        t.ev("picture", ["windows"], [0, len(windows), len(axes), 0], [], note=note)
        for axis, content in zip(axes, windows):
            curves(t, axis, "window", content[0], note=note)
    judge_data(t, where, os.path.basename(data or "data.pkl"), show.water, note, bool(data))


def animated(t, show, k, r):
    wanted, film = bool(gen.mix(k, 2, "window")), ["film%d.mp4", "out.1/fi.lm%d.mp4"][k % 2] % k
    talk = bool(gen.mix(k, 3, "talk"))
    first = show.start + (show.stop - show.start) * float([0, 0, 0.5, 0.3, 1.0][gen.mix(k, 5, "first")])
    duration = float(r.choice([1.0, 2.5, 0.5]))
    done = bool(gen.mix(k, 2, "done")) and not any(f[2] for f in show.facts)
    if done:
        for s in show.solvers:
            runs.solve(s)
    solvers = show.solvers[0] if len(show.solvers) == 1 and k % 2 else show.solvers
    kw = {} if first == show.start and k % 2 else {"start_time": first}
    with observed() as seen:
        animator = (animate.ShallowWaterAnimator if show.water else animate.ScalarAnimator)(
            show.benchmark, mesh_size=show.points, time_steps=show.steps, save=film, duration=duration, show=wanted, **kw)
        animate.Animate(show.benchmark, solvers, animator, initial=show.initial, solver_executed=done, write_warnings=talk).execute()
    note = "animation %d: %s" % (k, ", ".join("%s %r" % (type(s).__name__, f) for s, f in zip(show.solvers, show.facts)))
    show.describe(t, first if first or kw.get("start_time") else show.start, note)
    empty = not (show.solvers or show.initial or show.exact)
    troubled = empty or not show.exact or any(f[2] for f in show.facts)
    t.ev("said", ["trouble is reported" if troubled else "no warning without reason", "wanted" if talk and troubled else "unwanted",
                  "said" if "WARNING" in seen.said else "silent"], [0], note=note)
    if empty:
        t.ev("empty", ["-", "-"], [len(seen.films) + seen.windows], note=note)
        return
    t.ev("window", ["wanted" if wanted else "hidden"], [seen.windows, seen.left], note=note)
    t.ev("files", ["animation", "yes"] + pictures.endings([n for n, _, _ in seen.films], film), [0], note=note)
    axes = ["h", "q", "v"] if show.water else ["u"]
    for name, fps, frames in seen.films:
        t.ev("frames", [], [len(frames), int(fps)], [duration], note=note)
        for i, frame in enumerate(frames):
            t.ev("picture", ["frame"], [0, len(frame), len(axes), 0], [], note=note)
            text = [x for a in frame for x in a["texts"]]
            for axis, content in zip(axes, frame):
                curves(t, axis, "frame", dict(content, texts=text), i, note="frame %d of %s" % (i, note))


def long_films(rec, r):
    """Animations of runs with many steps."""
    for k in range(rec.n(2, 6)):
        with rec.trace("long film %d" % k) as t:
            show = Show(r, 1, False)
            show.start, show.stop = 0.0, 1.0
            n = int(r.integers(1100, 1700)) if k % 2 else int(r.integers(2100, 3000))
            space = SCALAR_FV["llf"](Scalar(show, "advection", "periodic"), mesh_size=3).solution.space
            solution = core.DiscreteSolutionWithHistory(core.DiscreteSolution(np.zeros(3), space=space))
            values = r.uniform(-1, 1, n + 1)
            values[0] = 0.0
            for x in values[1:]:
                solution.update(2.0**-12, np.full(3, x))
            show.stop = n * 2.0**-12
            with observed() as seen:
                animator = animate.ScalarAnimator(Scalar(show, "advection", "periodic"), time_steps=2, save="film.mp4", show=False)
                animator.add_animatable(solution, "long")
                animator.show()
            frames = seen.films[0][2]
            t.ev("long", [], values, [float(a["lines"][0][2][0]) for a, in frames], note="%d steps" % n)


def refused(rec, r):
    """Plotters and animators with nothing to show."""
    for k in range(4):
        with rec.trace("nothing to show %d" % k) as t:
            show = Show(r, k, k % 2 == 1)
            with observed() as seen:
                if k % 2:
                    x = (animate.ShallowWaterAnimator if show.water else animate.ScalarAnimator)(show.benchmark, mesh_size=3, show=True)
                else:
                    x = (plot.ShallowWaterPlotter if show.water else plot.ScalarPlotter)(show.benchmark, mesh_size=3, show=True, save_plot="x.png")
                try:
                    x.show()
                    how = "shown"
                except Exception as error:
                    how = type(error).__name__
            t.ev("empty", [how, "NothingToAnimateError" if k % 2 else "NothingToPlotError"], [len(seen.saved) + seen.windows])


def solved(show, label, cls=None):
    s = (SWE["llf"] if show.water else SCALAR_FV["llf"])(show.benchmark, mesh_size=4, cfl_number=0.02, save_history=True, short=label)
    runs.solve(s)
    return s


def sequences(rec, r):
    """Commands one after the other in one process, as in the model."""
    for k, states in enumerate(qspec.mbt_traces("model_pictures", "model_pictures.qnt", rec.n(4, 6), rec.n(14, 80), rec.seed)):
        with rec.trace("commands %d" % k) as t:
            plt.close("all")
            shows = {False: None, True: None}
            for j in range(4, 40):
                s = Show(r, j, True)
                s.exact = False
                shows[s.water] = s
            with observed() as seen:
                for i, s in enumerate(states[1:]):
                    command(t, shows, i, s["last"], r, seen)


def command(t, shows, i, what, r, seen):
    kind, n, wanted = what["kind"], what["curves"], what["wanted"]
    marks = [10 * i + j for j in range(n)]
    show = shows[kind.startswith(("swe", "error", "average"))]
    before, films = len(seen.saved), len(seen.films)
    solvers = [solved(show, str(m)) for m in (marks if "evolution" not in kind and "average" not in kind else marks[:1] * 2)]
    b, known = show.benchmark, {}
    opts = dict(solver_executed=True, write_warnings=False)
    if kind.endswith("plot"):
        plotter = (plot.ShallowWaterPlotter if show.water else plot.ScalarPlotter)(b, mesh_size=3, show=wanted, save_plot="p%d.png" % i)
        plot.Plot(b, solvers, plotter, **opts).execute()
    elif kind.endswith("animation"):
        animator = (animate.ShallowWaterAnimator if show.water else animate.ScalarAnimator)(
            b, mesh_size=3, time_steps=2, duration=0.5, show=wanted, save="a%d.mp4" % i)
        animate.Animate(b, solvers, animator, **opts).execute()
    else:
        times = np.array([0.0, 0.5, 1.0]) + i
        error = r.uniform(0, 1, (3, 2))
        if kind == "error evolution":
            error_evolution.PlotShallowWaterErrorEvolution(solvers, show=wanted, save="e%d.png" % i, solver_executed=True).execute(
                time=times, error=error)
            known = {tuple(error[:, j]): 10 * i + j for j in range(2)}
        else:
            error_evolution.PlotShallowWaterAverageErrorEvolution([times], [error], show=wanted, save="m%d.png" % i).execute()
            known = {tuple(error[:, j]): 10 * i for j in range(2)}
    note = "command %d: %s with %d curves, %s" % (i, kind, n, "shown" if wanted else "hidden")
    images = [content for name, content in seen.saved[before:] if name != "window"] + [f[-1] for _, _, f in seen.films[films:]]
    want = 3 if kind == "swe animation" else 1
    for content in images:
        found = []
        for axes in content:
            for label, _, y in axes["lines"]:
                if label == "$b$":
                    continue
                found.append(known.get(tuple(y), -1) if known else int(label) if label.isdigit() else -1)
        t.ev("picture", [kind], [i, len(content), want, n * want], found, note=note)
    number = {"swe plot": 3, "average error": 2}.get(kind, 1)
    t.ev("picture", ["all of them"], [i, len(images), number, 0], [], note=note)
    t.ev("window", ["wanted" if wanted else "hidden"], [1 if any(x[0] == "window" for x in seen.saved[before:]) else 0, len(plt.get_fignums())], note=note)


def script():
    loader = importlib.machinery.SourceFileLoader("cls1_script", os.path.join(REPO, "cls1"))
    module = importlib.util.module_from_spec(importlib.util.spec_from_loader("cls1_script", loader))
    loader.exec_module(module)
    return module.main


def table(function, grid, water):
    """Values of a function at points, heights and discharges."""
    v = np.array([function(x) for x in grid], float)
    return (v[:, 0], v[:, 1]) if water else (v, [])


def described(t, b, sources, moving, points, steps, first, initial, note):
    """A show of a shipped problem, functions as tables; sources: solvers, their labels, degrees (0: cells)."""
    water = hasattr(b, "bathymetry")
    grid = np.linspace(b.domain.a, b.domain.b, points)
    try:
        exact = table(b.exact_solution_at_end_time, grid, water)
    except Exception:
        exact = None
    bottom = [float(b.bathymetry(x)) for x in grid] if water else []
    t.ev("show", ["animation" if moving else "plot", "swe" if water else "scalar", "yes" if initial else "no", "yes" if exact else "no", "tables"],
         [b.domain.a, b.domain.b, b.start_time, b.end_time, first], [points, steps], *table(b.initial_data, grid, water),
         *(exact or ([], [])), bottom, note=note)
    for solver, label, p in sources:
        s = solver.solution
        times = np.asarray(s.time_history, float) if moving else np.array([float(s.time)])
        values = np.asarray(s.value_history if moving else [s.value], float)
        n = values.shape[1] // max(p, 1)
        t.ev("solver", [label, "nodes" if p else "cells", "ends"], [(b.domain.b - b.domain.a) / n], [n, max(p, 1), 1], times,
             values[:, :, 0] if water else values, values[:, :, 1] if water else [], [float(s.time)],
             [float(b.bathymetry(x)) for x in s.grid] if water else [], note=note)
    return grid, exact is not None


def judge_film(t, films, b, grid, times, exact, axes, duration, note):
    water = len(axes) == 3
    for _, fps, frames in films:
        t.ev("frames", [], [len(frames), int(fps)], [duration], note=note)
        for i in sorted({0, 1, len(frames) // 2, len(frames) - 1}):
            if i >= min(len(frames), len(times)):
                continue
            t.ev("picture", ["frame"], [0, len(frames[i]), len(axes), 0], [], note=note)
            if exact:
                t.ev("now", [], *table(lambda x: b.exact_solution(x, times[i]), grid, water), note=note)
            text = [x for a in frames[i] for x in a["texts"]]
            for axis, content in zip(axes, frames[i]):
                curves(t, axis, "frame", dict(content, texts=text), i, note="frame %d of %s" % (i, note))


SHIPPED = {"advection": (["three-hills", "two-hills", "one-hill", "cos", "gauss"], ["central", "llf", "mcl-fv", "cg", "cg-low", "mcl-fem"]),
           "burgers": (["shock", "smooth"], ["central", "llf", "mcl-fv", "cg", "cg-low", "mcl-fem"]),
           "swe": (["lake-at-rest", "lake-at-rest-perturbation", "moving-water-no-bathymetry", "moving-water-bump-bathymetry",
                    "oscillation", "damm-break", "cylindrical-damm-break", "sinus-inflow", "b1", "b2", "b3", "b4", "b5", "random"],
                   ["llf", "low-order", "es1", "central", "coarse", "mcl"])}


def chosen(r, k, keys, water):
    """Solvers of a command line and their labels and degrees."""
    args, facts = [], []
    for j in range(int(r.integers(1, 4))):
        key, label = keys[int(r.integers(0, len(keys)))], "solver %s" % "XYZ"[j]
        p = 0 if water or key not in FE else int(r.integers(1, 4)) if key == "cg" else 1
        args += [key, "+m", str(4 * int(r.integers(1, 4))), "++cfl", "0.1", "+s", label]
        args += (["+c", "2"] if key == "coarse" else []) + (["+p", str(p)] if p else [])
        facts.append((label, p))
    return args, facts


def command_lines(rec, r, directory):
    """plot and animate as they are called by users."""
    main, solved_ones, solve = script(), [], core.Solver.solve

    class Profile(cProfile.Profile):
        def __init__(self, *args, **kwargs):
            super().__init__(*args, **kwargs)
            profiles.append(self)

    profile, profiles = cProfile.Profile, []
    cProfile.Profile = Profile

    def noted(self, **kwargs):
        solved_ones.append(self)
        solve(self, **kwargs)

    for k in range(rec.n(16, 120)):
        problem = ["swe", "advection", "swe", "burgers"][k % 4]
        moving = bool(gen.mix(k // 4, 2, "moving"))
        names, keys = SHIPPED[problem]
        name = names[gen.mix(k + rec.seed, len(names), "name")]
        stop = float(r.choice([0.0625, 0.03125]))
        args, facts = chosen(r, k, keys, problem == "swe")
        points, steps = int(r.integers(2, 12)), int(r.choice([2, 3, 5, 9]))
        if "bump" in name:  # a bottom too narrow for odd numbers of points
            points += points % 2
        initial, hide = bool(r.integers(0, 2)), bool(r.integers(0, 2))
        line = ["animate" if moving else "plot", problem] + (["-r", "7"] if name == "random" else ["-b", name]) + ["-T", repr(stop), "-s"] + args
        line += ["--initial"] * initial + ["--hide"] * hide
        if k % 8 < 6:
            line += ["-m", str(points)] + (["--time_steps", str(steps)] if moving else [])
        else:
            points, steps = 200, 100
        first, duration, picture, data, film = 0.0, 20.0, None, "data/plot.pkl", None
        if moving:
            if r.integers(0, 2):
                first = stop / 2
                line += ["-t", repr(first)]
            if r.integers(0, 2):
                duration = float(r.choice([0.25, 1.0]))
                line += ["--duration", repr(duration)]
            film = [None, "data/animation.mp4", "out/fi.lm.mp4"][int(r.integers(0, 3))]
            line += [] if not film else ["--save"] if film.startswith("data") else ["--save", film]
        else:
            picture = [None, "data/plot.png", "out/picture.pdf"][int(r.integers(0, 3))]
            line += [] if not picture else ["--save"] if picture.startswith("data") else ["--save", picture]
            data = os.path.splitext(picture)[0] + ".pkl" if picture else data
            if r.integers(0, 2):
                data = ["new/numbers.pkl", "new/num.bers.pkl"][k % 2]
                line += ["--save-data", data]
        root = os.path.join(directory, "line%d" % k)
        os.makedirs(root + "/data")
        os.makedirs(root + "/out")
        os.makedirs(root + "/new")
        os.chdir(root)
        note = " ".join(line)
        with rec.trace("cls1 " + note) as t:
            argv = sys.argv
            sys.argv, core.Solver.solve = ["cls1"] + line, noted
            del solved_ones[:]
            try:
                with observed() as seen:
                    main()
            except SystemExit:
                raise ValueError("the command line is refused: " + seen.complaints[-300:])
            finally:
                sys.argv, core.Solver.solve = argv, solve
                for x in profiles:  # those of interrupted runs stay active
                    x.disable()
                del profiles[:]
            modules = {"advection": advection, "burgers": burgers, "swe": shallow_water}[problem]
            b = modules.RandomOscillationNoTopographyBenchmark(seed=7) if name == "random" else modules.BENCHMARKS[name]()
            b.end_time = stop
            sources = [(s, *f) for s, f in zip(solved_ones, facts)]
            grid, exact = described(t, b, sources, moving, points, steps, first, initial, note)
            t.ev("picture", ["solvers"], [0, len(solved_ones), len(facts), 0], [], note=note)
            axes = ["h", "q", "v"] if problem == "swe" else ["u"]
            t.ev("window", ["hidden" if hide else "wanted"], [min(1, seen.windows), seen.left], note=note)
            t.ev("said", ["trouble is reported" if not exact else "no warning without reason", "wanted" if not exact else "unwanted",
                          "said" if "WARNING" in seen.said else "silent"], [0], note=note)
            if moving:
                t.ev("files", ["animation", "yes" if film else "no"] + pictures.endings([n for n, _, _ in seen.films], film or ""), [0], note=note)
                times = np.linspace(0, stop, steps)
                for s in solved_ones:
                    times = np.union1d(times, s.solution.time_history)
                judge_film(t, seen.films, b, grid, times[times >= first], exact, axes, duration, note)
            else:
                saved = [(n, c) for n, c in seen.saved if n != "window"]
                t.ev("files", ["plot", "yes" if picture else "no"] + (pictures.endings([n for n, _ in saved], picture) if picture else
                                                                     [n for n, _ in saved]), [0], note=note)
                judge_pictures(t, saved, problem == "swe", note)
                judge_data(t, root, data, problem == "swe", note)
        os.chdir(directory)
        shutil.rmtree(root)
    cProfile.Profile = profile


class Past:
    """A solver as it was when something was saved."""

    def __init__(self, solver):
        s = solver.solution
        self.solution = types.SimpleNamespace(time=float(s.time), value=np.array(s.value), grid=np.array(s.grid),
                                              time_history=np.array(s.time_history), value_history=np.array(s.value_history))
        self.short = solver.short


def series(rec, r):
    """Pictures of a series of random problems show the run they are named after."""
    for k in range(rec.n(2, 12)):
        with rec.trace("series %d" % k) as t:
            seed, stop, runs_ = int(r.integers(0, 1000)), float(r.choice([0.0625, 0.03125])), int(r.integers(2, 4))
            b = shallow_water.RandomOscillationNoTopographyBenchmark(seed=3, end_time=stop)
            two = [SWE[["llf", "low-order", "mcl"][int(r.integers(0, 3))]](b, mesh_size=4, cfl_number=0.1, save_history=True, short="approximation"),
                   SWE["coarse"](b, mesh_size=8, cfl_number=0.1, coarsening_degree=2, save_history=True, short="reference") if r.integers(0, 2)
                   else SWE["llf"](b, mesh_size=4, cfl_number=0.05, save_history=True, short="reference")]
            wanted = [bool(gen.mix(k + rec.seed, 3, x)) for x in "pae"]
            if not any(wanted):
                wanted = [True] * 3
            with observed() as seen:
                seen.watch = lambda: [Past(s) for s in two]
                s = error_evolution.GenerateShallowWaterErrorEvolutionSeries(
                    *two, seed=seed, end_time=stop, initial_conditions=runs_, save_directory="series%d" % k,
                    save_plot=wanted[0], save_animation=wanted[1], save_error=wanted[2])
                s.execute()
            note = "series %d, seed %d" % (k, seed)
            get = shallow_water.RandomBenchmarkGenerator(seed=seed, end_time=stop)
            saved, films, past = dict(seen.saved), {n: (f, x) for n, f, x in seen.films}, dict(seen.seen)
            names = ["series%d/%s" % (k, n) for i in range(runs_) for n, w in (
                ("plot_%d_h.png" % i, wanted[0]), ("plot_%d_q.png" % i, wanted[0]), ("plot_%d_v.png" % i, wanted[0]),
                ("animation_%d.mp4" % i, wanted[1]), ("error_%d.png" % i, wanted[2])) if w]
            t.ev("named", sorted(os.path.basename(n) for n in past) + ["|"] + sorted(os.path.basename(n) for n in names),
                 [len(seen.saved) + len(seen.films), len(names), seen.left], note=note)
            for i in range(runs_):
                b = get()
                stem = "series%d/" % k
                for axis in "hqv":
                    name = stem + "plot_%d_%s.png" % (i, axis)
                    if name in saved:
                        described(t, b, [(x, l, 0) for x, l in zip(past[name], ("approximation", "reference"))], False, 200, 100, 0.0, False, note)
                        judge_pictures(t, [(name, saved[name])], True, note)
                name = stem + "animation_%d.mp4" % i
                if name in films:
                    sources = [(x, l, 0) for x, l in zip(past[name], ("approximation", "reference"))]
                    grid, exact = described(t, b, sources, True, 200, 100, 0.0, False, note)
                    times = np.union1d(np.linspace(0, stop, 100), np.union1d(*[x.solution.time_history for x in past[name]]))
                    judge_film(t, [(name,) + films[name]], b, grid, times, exact, ["h", "q", "v"], 20.0, note)
                name = stem + "error_%d.png" % i
                if name in saved:
                    t.ev("picture", ["error"], [0, len(saved[name]), 1, 0], [], note=note)
                    lines = saved[name][0]["lines"]
                    error = np.array(s.errors[i])
                    t.ev("same", ["an error picture shows the errors of its run"], *[v for _, x, y in lines for v in (x, y)],
                         *[v for j in range(2) for v in (s.times[i], error[:, j])], note=note)


def drive(rec):
    r = gen.rng(rec.seed, "C20")
    here, directory = os.getcwd(), tempfile.mkdtemp(prefix="cls1-pictures-")
    try:
        os.chdir(directory)
        for k in range(rec.n(36, 240)):
            with rec.trace("plot %d" % k) as t:
                plotted(t, Show(r, k, False), k, directory)
        for k in range(rec.n(30, 200)):
            with rec.trace("animation %d" % k) as t:
                animated(t, Show(r, k, True), k, r)
        refused(rec, r)
        long_films(rec, r)
        sequences(rec, r)
        series(rec, r)
        command_lines(rec, r, directory)
    finally:
        os.chdir(here)
        shutil.rmtree(directory, ignore_errors=True)


def models(rec):
    ok, states, text = qspec.model_run("model_pictures", "model_pictures.qnt", ["inv"], 8, rec.n(2000, 20000), rec.seed)
    return [dict(name="model_pictures: commands which draw", ok=ok, states=states, transitions=states, text=text)]
