"""C14: command lines of the model, given to the real program."""
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

import numpy as np

import qspec

LEVEL = "exploration"
RULE = "an event is a command line of the model, one run it caused, or its end; every run is compared with the one the specification requests"
ASSUMPTIONS = ["runs are cut off after 150 steps (600 up to 8, 20 from 33 unknowns on, 4 from 65 on) on both sides",
               "a run and its reference agree within 2^-20 (networks: 2^-14) relative to one plus the largest value"]


def execute(jobs, workers=8):
    """Command lines executed by several processes, each in a directory of its own."""
    root = tempfile.mkdtemp(prefix="cls1-cli-")
    try:
        running = []
        for w in range(workers):
            d = "%s/worker%d" % (root, w)
            os.makedirs(d)
            with open(d + "/jobs.pkl", "wb") as f:
                pickle.dump(jobs[w::workers], f)
            e = dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLCONFIGDIR=d, MPLBACKEND="Agg",
                     PYTHONPATH=os.path.dirname(os.path.abspath(__file__)), HOME=d)
            running.append((d, subprocess.Popen(
                [sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), "cli_worker.py"), "jobs.pkl", "results.pkl"],
                cwd=d, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
        results = [None] * len(jobs)
        for w, (d, p) in enumerate(running):
            error = p.communicate(timeout=3000)[1]
            try:
                with open(d + "/results.pkl", "rb") as f:
                    results[w::workers] = pickle.load(f)
            except OSError:
                results[w::workers] = [error.decode(errors="replace")[-2000:]] * len(jobs[w::workers])
        return results
    finally:
        shutil.rmtree(root, ignore_errors=True)


LEADS, KINDS = {"": 0, "-": 1, "+": 2}, {"word": 0, "int": 1, "float": 2}


def flat(v):
    """Values of a solution (some of them, if there are many)."""
    v = np.asarray(v, float)[:: 1 + len(v) // 100]
    return np.concatenate([v[:, 0], v[:, 1]]) if v.ndim == 2 else v.ravel()


def record(t, job, result):
    line, want = job["tokens"], job["want"]
    t.ev("line", [k["s"] for k in line], [LEADS[k["lead"]] for k in line], [KINDS[k["kind"]] for k in line],
         [k["i"] for k in line], [k["x"] for k in line], [int(want["ok"])])
    if isinstance(result, str):
        raise RuntimeError(result)
    blank = ({"solver": 0, "n": 0, "draw": -1, "average": 0, "waves": 0, "amplitude": 0}, None)
    for i, a in enumerate(result["actual"]):
        run, r = result["references"][i] if i < len(result["references"]) else blank
        s = want["solvers"][run["solver"]] if r else None
        r = r or a
        t.ev("run", [s["key"], s["method"], s["flux"], want["problem"], "" if run["draw"] >= 0 else want["benchmark"],
                     a["name"], a["short"], a["outcome"], r["outcome"]] if s else [""] * 7 + [a["outcome"], r["outcome"]],
             [run["n"], s["deg"], s["p"], int(s["exact"]), int(s["adaptive"]), s["cfl"], s["gamma"], want["stop"], want["seed"],
              run["draw"], run["average"], run["waves"], run["amplitude"], want["ints"]["seed"] if run["draw"] >= 0 else 0] if s else [],
             [a["n"], int(a["history"])], a["times"], r["times"], flat(a["end"]), flat(a["start"]), flat(r["end"]), flat(r["start"]),
             note=" ".join(job["line"]))
    t.ev("end", [result["status"]] + result["files"],
         [len(result["actual"]), result["shown"], result["printed"], int(result["arguments"]), int(result["profile"]),
          sum(f.endswith(".png") for f in result["files"])],
         note=" ".join(job["line"]) + " -> " + result["message"][-400:] + result["err"][-200:])


def lines(traces, seed):
    """Different finished lines of the model's behaviours."""
    jobs = {}
    for t in traces:
        for s in t:
            if s["phase"] == "done":
                line = [k["s"] for k in s["line"]]
                jobs.setdefault(tuple(line), dict(line=line, tokens=s["line"], want=s["want"], todo=s["todo"]))
    return list(jobs.values())


def drive(rec):
    jobs = []
    for i in range(rec.n(2, 8)):
        jobs += lines(qspec.mbt_traces("model_cli", "model_cli.qnt", 200, 16, 10 * rec.seed + i, 16), rec.seed)
    for job, result in zip(jobs, execute(jobs)):
        with rec.trace("cls1 " + " ".join(job["line"])) as t:
            record(t, job, result)


def models(rec):
    ok, states, text = qspec.model_run("model_cli", "model_cli.qnt", ["understood"], 14, rec.n(200, 2000), rec.seed)
    return [{"model": "model_cli", "invariants": ["understood"], "ok": ok, "states": states, "text": text}]
