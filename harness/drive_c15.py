"""C15: generated training data."""
import csv
import os
import shutil
import tempfile

import numpy as np

import gen
import qspec
from env import core, finite_volume, benchmark, swe_solver
from schemes import ODE, GETTERS

from command.generate_data import (BenchparkParameterDataFrameBuilder, DiscreteSolutionWithInputData, GenerateData,
                                   SubgridFluxDataBuilder, SubgridFluxDataFrameBuilder)
from command.train_network import TrainNetwork

LEVEL = "model_checking"
RULE = ("every event is one data generating run in a history of runs of the model, one generated solution, one row of "
        "parameters or one step of a recorded window")
ASSUMPTIONS = ["two-point base fluxes over a flat bottom (what the generator's problems have)",
               "a block of rows starts where the time is the start time"]

RANDOM = benchmark.shallow_water.RandomOscillationNoTopographyBenchmark
CLS = {"llf": swe_solver.LaxFriedrichsSolver, "low-order": swe_solver.LowOrderSolver, "central": swe_solver.CentralFluxSolver,
       "es": swe_solver.EnergyStableSolver, "es1": swe_solver.FirstOrderDiffusiveEnergyStableSolver,
       "antidiffusion": swe_solver.LinearAntidiffusiveSolver, "mcl": swe_solver.MCLSolver}


def number(x):
    try:
        return float(x)
    except ValueError:
        return None


def read(path):
    """Positions of header lines, header cells, rows of numbers and the lines themselves."""
    with open(path, newline="") as f:
        lines = [x for x in f.read().split("\n") if x.strip()]
    heads, header, rows, texts = [], [], [], []
    for i, line in enumerate(lines):
        cells = next(csv.reader([line]))
        values = [number(x) for x in cells]
        if any(x is None for x in values):
            heads.append(i)
            header.append(cells)
        else:
            rows.append(values)
            texts.append(line)
    return heads, header, rows, texts


def mark(x):
    return gen.hash_str(x)


class Settings:
    def __init__(self, r, name=None, plain=False):
        self.name = name or str(r.choice(["llf", "low-order", "central", "es", "es1", "antidiffusion"]))
        self.sub, self.gamma = "", 0.0
        self.deg = int(r.choice([1, 2, 3, 4]))
        self.radius = int(r.choice([1, 1, 2, 3]))
        self.node = int(r.integers(self.radius, self.radius + 3))
        self.cells = self.deg * (self.node + self.radius + int(r.integers(0, 3)))
        self.cells = max(self.cells, 2 * self.deg)
        self.method = str(r.choice(["euler", "heun", "ssp3"]))
        self.cfl = float(r.choice([0.04, 0.1]))
        self.end = float(r.choice([1.0, 0.7])) * 100 / self.cells * self.cfl * float(r.choice([2.0, 3.5, 1.0]))
        self.kw = {}
        if self.name == "antidiffusion":
            self.sub = str(r.choice(["llf", "central", "es1"]))
            self.gamma = float(r.choice([0.1, 0.5]))
            self.kw = {"gamma": self.gamma, "flux_getter": GETTERS[self.sub]}

    def solver(self, b, **kw):
        return CLS[self.name](b, mesh_size=self.cells, cfl_number=self.cfl, ode_solver_type=ODE[self.method],
                              **self.kw, **kw)

    def command(self, directory, seed, count, overwrite, first=None):
        b = first or benchmark.shallow_water.OscillationNoTopographyBenchmark(end_time=self.end)
        return GenerateData(self.solver(b), directory, solution_number=count, end_time=self.end, seed=seed,
                            coarsening_degree=self.deg, input_radius=self.radius, node_index=self.node,
                            overwrite=overwrite, print_output=False)

    def scheme(self):
        return [self.name, self.sub]

    def note(self):
        return "%s %s cells=%d deg=%d radius=%d node=%d %s cfl=%g end=%g gamma=%g" % (
            self.name, self.sub, self.cells, self.deg, self.radius, self.node, self.method, self.cfl, self.end, self.gamma)

    def header(self):
        cells = ["U%d" % i for i in range(self.node - self.radius, self.node + self.radius)] + ["G_%s" % (self.node - 0.5)]
        return ",".join(x for c in cells for x in (c, c)) + "|" + ",".join(["h", "q"] * len(cells))


HEAD2 = ("seed," + ",".join(["height"] * 4 + ["velocity"] * 4) + "|"
         + ",".join(["average", "amplitude", "wave_number", "phase_shift"] * 2))


def judge_solution(t, s, seed, rows, note=""):
    """A block of rows against a run computed directly."""
    b = RANDOM(seed, end_time=s.end)
    ref = s.solver(b, save_history=True)
    ref.solve(disable=True, leave=False)
    h = ref.solution
    lo = max(0, (s.node - max(s.radius, 1)) * s.deg - 1)
    hi = (s.node + max(s.radius, 1)) * s.deg + 1
    dx = 100.0 / s.cells
    t.ev("solution", s.scheme(), [s.node, s.radius, s.deg, 1],
         [float(b.gravitational_acceleration), dx, dx * s.deg, s.gamma, float(b.start_time), s.end], np.asarray(h.time_history, float), [lo],
         *[np.asarray(v, float)[lo:hi].ravel() for v in h.value_history], *rows, note=note or s.note())


def parameters(t, seed, row):
    b = RANDOM(seed)
    t.ev("parameters", [], [float(x) for x in (
        seed, b.height_average, b.height_amplitude, b.height_wave_number, b.height_phase_shift,
        b.velocity_average, b.velocity_amplitude, b.velocity_wave_number, b.velocity_phase_shift)], row)


def blocks(rows, texts):
    out = []
    for row, text in zip(rows, texts):
        if row[0] == 0.0 or not out:
            out.append([])
        out[-1].append((row, text))
    return out


def perform(t, s, label, directory, seed, count, overwrite, command=None, judged=4):
    command = command or s.command(directory, seed, count, overwrite)
    command.execute()
    heads, header, rows, texts = read(os.path.join(directory, "data.csv"))
    heads2, header2, rows2, texts2 = read(os.path.join(directory, "benchmark.csv"))
    solutions = blocks(rows, texts)
    t.ev("order", [label], [seed, count, int(overwrite)], heads, heads2, [mark(x) for x in texts], [mark(x) for x in texts2],
         [mark("\n".join(x for _, x in b)) for b in solutions], [mark(x.split(",", 1)[-1]) for x in texts2],
         note="%s seed=%d number=%d overwrite=%s" % (s.note(), seed, count, overwrite))
    if overwrite:
        t.ev("columns", [s.header(), "|".join(",".join(x for x in h[1:]) for h in header)], [0])
        tops = [h[1:] for h in header2]
        t.ev("columns", [HEAD2, "|".join(",".join(x for x in h if x.strip() and not x.startswith("Unnamed")) for h in tops)], [0])
    new = list(zip(solutions, rows2))[-count:]
    for block, row in new[:judged]:
        parameters(t, int(row[1]), row[1:])
        judge_solution(t, s, int(row[1]), [x for x, _ in block])
    return command


def histories(rec, r, root):
    """The model's sequences of runs."""
    for k, states in enumerate(qspec.mbt_traces("model_data", "model_data.qnt", rec.n(3, 5), rec.n(14, 80), rec.seed)):
        with rec.trace("files %d" % k) as t:
            a = Settings(r)
            b = Settings(r, a.name)
            # what one file holds has the same columns
            b.radius, b.node, b.deg, b.cells = a.radius, a.node, a.deg, a.cells
            b.method = "heun" if a.method != "heun" else "euler"
            b.end = a.end * 1.25
            directory = os.path.join(root, "files%d" % k)
            os.mkdir(directory)
            for o in states[-1]["orders"]:
                s = {"a": a, "b": b}[o["how"]]
                perform(t, s, o["how"], directory, o["seed"] + 100 * k, o["number"], o["overwrite"], judged=1)
            shutil.rmtree(directory)


def generated(rec, r, root):
    names = ["llf", "es1", "low-order", "antidiffusion", "central", "es"]
    for k in range(rec.n(48, 300)):
        with rec.trace("generated data %d" % k) as t:
            s = Settings(r, names[k % len(names)])
            if k % 20 == 5:  # many time levels
                s.cfl /= [30, 120][k // 20 % 2]
            directory = os.path.join(root, "data%d" % k)
            os.mkdir(directory)
            seed = int(r.integers(1, 10**6))
            count = int(r.integers(1, 4))
            command = perform(t, s, "x", directory, seed, count, True)
            if k % 3 == 0:  # frames, one after the other
                fine = s.solver(RANDOM(1, end_time=s.end))
                space = fine.solution.space
                b = RANDOM(seed, end_time=s.end)
                builder = SubgridFluxDataFrameBuilder(SubgridFluxDataBuilder(
                    fine, fine.flux_getter(b, space), fine.flux_getter(b, space.coarsen(s.deg)), coarsening_degree=s.deg,
                    input_radius=s.radius, node_index=s.node, print_output=False))
                frame, table, sizes, seeds = None, None, [], [int(x) for x in r.integers(1, 10**6, 1 + k % 2 + gen.mix(k // 3, 2))]
                for i in seeds:
                    frame = builder.get_data_frame(RANDOM(i, end_time=s.end), frame)
                    table = BenchparkParameterDataFrameBuilder().get_data_frame(RANDOM(i, end_time=s.end), table)
                    sizes.append(len(frame))
                t.ev("same", ["one row of parameters per problem"], [len(seeds)], [len(table)])
                for i, start, stop in zip(seeds, [0] + sizes, sizes):
                    judge_solution(t, s, i, [[float(frame.index[j]), *[float(x) for x in frame.iloc[j]]] for j in range(start, stop)],
                                   note="frame " + s.note())
                for i, row in zip(seeds, table.values.tolist()):
                    parameters(t, i, [float(x) for x in row])
            shutil.rmtree(directory)


def windows(rec, r):
    """The recorded neighbourhood of a node through any life of a solution."""
    for k in range(rec.n(60, 500)):
        with rec.trace("window %d" % k) as t:
            radius, deg = int(r.integers(1, 4)), int(r.integers(1, 4))
            node = int(r.integers(radius, radius + 3))
            reach = int(r.integers(1, radius * deg + 1))
            cells = deg * (node + radius + int(r.integers(0, 2)))
            u = r.uniform(-1, 1, (cells, 2))
            start = float(r.choice([0.0, 1.5, -1.0]))
            s = DiscreteSolutionWithInputData(core.DiscreteSolution(u, initial_time=start), node, radius, deg, reach)

            def look():
                t.ev("windows", [], np.asarray(s.time_history, float), np.asarray(s.value, float).ravel(),
                     np.asarray(s.coarse_node_neighbours_history, float).ravel(),
                     np.asarray(s.fine_node_neighbours_history, float).ravel(), np.asarray(s.time_step_history, float))

            t.ev("new", [], [node, radius, deg, reach], [start], u.ravel())
            look()
            for _ in range(int(r.integers(2, 7))):
                u = r.uniform(-1, 1, (cells, 2))
                if r.uniform() < 0.65:
                    dt = float(r.choice([0.25, 0.5, 1.0]))
                    s.update(dt, u.copy())
                    t.ev("update", [], [dt], u.ravel())
                else:
                    back = float(r.choice([0.0, 0.25, 1.0, 4.0, -0.5]))
                    at = s.time - back
                    s.set_value(u.copy(), at)
                    t.ev("set", [], [at], u.ravel())
                if r.uniform() < 0.7:
                    look()
                    s.coarse_node_neighbours_history[:] = 7.0
                    s.fine_node_neighbours_history[:] = 7.0
                    u[:] = 9.0
            look()


def limited(rec, root):
    """Data of the limited scheme, whose fluxes depend on the neighbouring nodes too."""
    with rec.trace("data of the limited scheme") as t:
        s = Settings(np.random.default_rng(5), "mcl")
        s.deg, s.radius, s.node, s.cells, s.method, s.cfl, s.end = 2, 2, 3, 12, "euler", 0.1, 3.0
        directory = os.path.join(root, "limited")
        os.mkdir(directory)
        s.command(directory, 7, 1, True).execute()
        _, _, rows, _ = read(os.path.join(directory, "data.csv"))
        _, _, rows2, _ = read(os.path.join(directory, "benchmark.csv"))
        b = RANDOM(int(rows2[0][1]), end_time=s.end)
        ref = s.solver(b, save_history=True)
        ref.solve(disable=True, leave=False)
        h, dx = ref.solution, 100.0 / s.cells
        t.ev("whole", ["mcl", "central"], [s.node, s.radius, s.deg], [float(b.gravitational_acceleration), dx, dx * s.deg],
             [len(h.time_history)], *[np.asarray(v, float).ravel() for v in h.value_history], *rows, note=s.note())


class Learner:
    """A network that only remembers what it is given."""

    def __init__(self, path):
        self.data_path, self.lessons, self.saved = path, [], 0

    def fit(self, X, y, **kw):
        self.lessons.append((np.array(X, float), np.array(y, float), kw.get("epochs")))

    def save_params(self):
        self.saved += 1


def training(rec, r, root):
    """What is learned from the files written."""
    for k in range(rec.n(12, 60)):
        with rec.trace("training %d" % k) as t:
            s = Settings(r, ["llf", "es1", "low-order"][k % 3])
            directory = os.path.join(root, "training%d" % k)
            os.mkdir(directory)
            for again in range(1 + k % 2):
                s.command(directory, 11 + k * (again if gen.mix(k, 2, "other") else 0), 1 + gen.mix(k, 3), not again).execute()
            _, _, rows, _ = read(os.path.join(directory, "data.csv"))
            skip, epochs = [1, 2, 3, 7, 50][gen.mix(k, 5)], int(r.integers(1, 9))
            net = Learner(os.path.join(directory, "data.csv"))
            TrainNetwork(net, epochs=epochs, skip=skip, seed=3 if k % 4 else None).execute()
            t.ev("lesson", [], [skip, epochs, 4 * s.radius], [len(net.lessons), net.saved] + [x[2] for x in net.lessons],
                 [len(rows)], *rows, *net.lessons[0][0], *net.lessons[0][1], note=s.note())
            shutil.rmtree(directory)


def drive(rec):
    r = gen.rng(rec.seed, "C15")
    root = tempfile.mkdtemp(prefix="c15-")
    try:
        histories(rec, r, root)
        generated(rec, r, root)
        limited(rec, root)
        training(rec, r, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    windows(rec, r)


def models(rec):
    ok, states, text = qspec.model_run("model_data", "model_data.qnt", ["inv"], 8, rec.n(2000, 20000), rec.seed)
    return [{"model": "model_data", "invariants": ["inv"], "ok": ok, "states": states, "text": text}]
