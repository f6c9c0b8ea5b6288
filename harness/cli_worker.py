"""Executes command lines of cls1 in a scratch directory of its own.

    cli_worker.py jobs.pkl results.pkl

A job is a command line and the runs it is supposed to consist of.  For each line
every call of Solver.solve is recorded; next to it each supposed run is computed
directly, without the command line.
"""
import cProfile
import contextlib
import importlib.machinery
import importlib.util
import io
import os
import pickle
import shutil
import signal
import sys
import time
import traceback

import env
import numpy as np
import core
import matplotlib.pyplot as plt

SCALE = float(1 << 80)
LOG = []
SHOWN = []
PROFILES = []


LIMIT = 90.0  # seconds of processor time for one command line and its reference


class TooLong(BaseException):
    """A command line did not come to an end."""


def too_long(*_):
    raise TooLong("does not end")


class Enough(BaseException):
    """The run was stopped after a number of steps."""


class Limited:
    """A solution which admits a limited number of updates."""

    def __init__(self, solution, steps):
        self.__dict__["solution"], self.__dict__["left"] = solution, steps

    def __getattr__(self, name):
        return getattr(self.__dict__["solution"], name)

    def update(self, time_step, value):
        if self.left == 0:
            raise Enough
        self.__dict__["left"] -= 1
        self.solution.update(time_step, value)
        self.times.append(float(self.solution.time))


def length(solution):
    return int(np.shape(solution.value)[0])


ORIGINAL = core.Solver.solve


def solve(self, **kwargs):
    """Solver.solve for a limited number of steps, recorded."""
    full = self.solution
    limited = Limited(full, 600 if length(full) <= 8 else 150 if length(full) <= 32 else 20 if length(full) <= 64 else 4)
    limited.__dict__["times"] = [float(full.time)]
    run = dict(solver=self, start=np.array(full.value, float), outcome="complete", times=limited.times,
               name=self.name, short=self.short, n=length(full), history=hasattr(full, "value_history"))
    LOG.append(run)
    self.solution = limited
    try:
        ORIGINAL(self, **kwargs)
    except Enough:
        pass
    except Exception as error:
        run["outcome"] = type(error).__name__
        raise
    finally:
        self.solution = full
        run["end"] = np.array(full.value, float)


def show(*_, **__):
    SHOWN.append(1)
    plt.close("all")


class Profile(cProfile.Profile):
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        PROFILES.append(self)


cProfile.Profile = Profile
core.Solver.solve = solve
plt.show = show


def script():
    loader = importlib.machinery.SourceFileLoader("cls1_script", os.path.join(env.REPO, "cls1"))
    spec = importlib.util.spec_from_loader("cls1_script", loader)
    module = importlib.util.module_from_spec(spec)
    loader.exec_module(module)
    return module


# ----------------------------------------------------------------- references
def problems():
    from benchmark import advection, burgers, shallow_water
    return {"advection": advection, "burgers": burgers, "swe": shallow_water}


def reference(want, run, sequences):
    """The solver of a run, built directly."""
    s = want["solvers"][run["solver"]]
    modules = problems()
    stop = want["stop"] / SCALE if want["stop"] else None
    later = {"end_time": stop} if stop else {}
    if run["draw"] >= 0:
        kw = {}
        if run["average"]:
            kw["height_average"] = run["average"] / SCALE
        if run["waves"]:
            kw["height_wave_number"] = run["waves"]
        if run["amplitude"]:
            kw["height_amplitude"] = run["amplitude"] / SCALE
        seeds = np.random.default_rng(want["ints"]["seed"])
        for _ in range(run["draw"] + 1):
            seed = seeds.integers(int(1e9))
        bench = modules["swe"].RandomOscillationNoTopographyBenchmark(seed, **later, **kw)
    elif want["seed"] >= 0:
        bench = modules["swe"].RandomOscillationNoTopographyBenchmark(seed=want["seed"], **later)
    else:
        bench = modules[want["problem"]].BENCHMARKS[want["benchmark"]](**later)
    key = s["key"]
    cls = (env.SWE if want["problem"] == "swe" else env.FE | env.SCALAR_FV)[key]
    kw = dict(mesh_size=run["n"], cfl_number=s["cfl"] / SCALE)
    if key not in ("cg", "lw", "central", "llf") or want["problem"] == "swe" and key == "llf":
        kw["ode_solver_type"] = {"euler": core.ForwardEuler, "heun": core.Heun,
                                 "ssp3": core.StrongStabilityPreservingRungeKutta3}[s["method"]]
    if s["flux"]:
        import schemes
        kw["flux_getter"] = schemes.GETTERS[s["flux"]]
    if key == "antidiffusion":
        kw["gamma"] = s["gamma"] / SCALE
    if key == "coarse":
        kw["coarsening_degree"] = s["deg"]
    if key in env.FE:
        kw["polynomial_degree"] = s["p"]
        if key == "cg":
            kw["exact_flux"] = s["exact"]
        else:
            kw["adaptive"] = s["adaptive"]
    return cls(bench, **kw)


def files(root):
    out = set()
    for base, _, names in os.walk(root):
        out |= {os.path.relpath(os.path.join(base, n), root) for n in names}
    return out


def execute(main, job, root):
    """(runs, references, status, ...) of a command line."""
    want, todo = job["want"], job["todo"]
    os.makedirs(root + "/data")
    for d in ("reduced-llf", "reduced-llf-2"):
        shutil.copytree(os.path.join(env.REPO, "data", d), os.path.join(root, "data", d))
    os.makedirs(root + "/data/reduced-es1")
    os.makedirs(root + "/out")
    os.chdir(root)
    before = files(root)
    del LOG[:], SHOWN[:]
    out, err = io.StringIO(), io.StringIO()
    status, message = "returned", ""
    sys.argv = ["cls1"] + job["line"]
    import profiler
    profiler.PRINT_PROFILE = 0
    np.random.seed(0)
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        try:
            main()
        except SystemExit:
            status = "exit"
        except BaseException as error:
            status, message = "raised", "".join(traceback.format_exception(error))[-800:]
    # a profile that was interrupted stays active
    for p in PROFILES:
        p.disable()
    del PROFILES[:]
    plt.close("all")
    actual, shown = [{k: v for k, v in r.items() if k != "solver"} for r in LOG], len(SHOWN)
    new = files(root) - before
    references, skip = [], False
    del LOG[:]
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        for run in todo:
            if skip:
                skip = False
                continue
            solver = reference(want, run, {})
            try:
                solver.solve(disable=True)
            except Exception:
                pass
            references.append((run, {k: v for k, v in LOG[-1].items() if k != "solver"}))
            if LOG[-1]["outcome"] != "complete":
                if want["command"] == "parameter-variation-test":
                    skip = run["solver"] == 1
                elif want["command"] not in ("plot", "animate"):
                    break
    text = out.getvalue()
    return dict(actual=actual, references=references, status=status, message=message, shown=shown, files=sorted(new),
                printed=len(text), arguments="ARGUMENTS:" in text, profile="function calls" in text,
                err=err.getvalue()[-300:])


if __name__ == "__main__":
    source, target = (os.path.abspath(a) for a in sys.argv[1:])
    with open(source, "rb") as f:
        jobs = pickle.load(f)
    main = script().main
    results, here, endless = [], os.getcwd(), 0
    signal.signal(signal.SIGPROF, too_long)
    for i, job in enumerate(jobs):
        if endless > 1:
            results.append("not executed: two command lines did not come to an end")
            continue
        signal.setitimer(signal.ITIMER_PROF, LIMIT, 5)
        start = time.process_time()
        try:
            results.append(execute(main, job, "%s/line%d" % (here, i)))
        except BaseException as error:
            results.append("".join(traceback.format_exception(error))[-2000:])
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            endless += time.process_time() - start >= LIMIT
            if os.environ.get("QSPEC_LONGEST"):
                with open(os.environ["QSPEC_LONGEST"], "a") as f:
                    f.write("%.1f %s\n" % (time.process_time() - start, " ".join(job["line"])))
        os.chdir(here)
        shutil.rmtree("%s/line%d" % (here, i), ignore_errors=True)
    with open(target, "wb") as f:
        pickle.dump(results, f)
