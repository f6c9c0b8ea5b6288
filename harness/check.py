"""check.py <property> [--replay FILE]: decide one property of the code in /repo.

Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken.
"""
import importlib
import os
import shutil
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = "/opt/venv/bin/python"


def reexec():
    """Run in the repository's interpreter, in a clean environment."""
    if os.environ.get("CLS1_CHECK") == "1" or not os.path.exists(PY):
        return
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", TQDM_DISABLE="1",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", CLS1_CHECK="1")
    # a private copy of matplotlib's cache: nothing outside scratch is written
    scratch = tempfile.mkdtemp(prefix="cls1-check-")
    shutil.copytree("/opt/vp/mplconfig", os.path.join(scratch, "mpl")) if os.path.isdir("/opt/vp/mplconfig") else None
    env["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
    env["CLS1_SCRATCH"] = scratch
    env["TMPDIR"] = scratch
    os.execve(PY, [PY, "-B", os.path.abspath(__file__)] + sys.argv[1:], env)


def main():
    prop = sys.argv[1]
    import qspec

    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        return qspec.replay(prop, sys.argv[3])
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    rec = qspec.Recorder(seed, tier)
    os.chdir(os.environ.get("CLS1_REPO", "/repo"))
    driver = None
    try:
        driver = importlib.import_module("drive_" + prop.lower())
        failed_import = None
    except qspec.MachineryError:
        raise
    except Exception as error:  # the code under test cannot even be loaded
        failed_import = error
    if failed_import is not None:
        with rec.trace("import") as t:
            raise failed_import
    else:
        with rec.trace("driver"):
            driver.drive(rec)
    models = [] if failed_import else getattr(driver, "models", lambda r: [])(rec)
    return qspec.finish(prop, getattr(driver, "LEVEL", "exploration"), rec,
                        getattr(driver, "RULE", "") if not failed_import else "import failed", t0, models,
                        getattr(driver, "ASSUMPTIONS", ()) if not failed_import else ())


if __name__ == "__main__":
    reexec()
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    if os.environ.get("CLS1_SCRATCH", "").startswith(("/tmp/", tempfile.gettempdir() + "/")):
        shutil.rmtree(os.environ["CLS1_SCRATCH"], ignore_errors=True)
    os._exit(code)
