"""plant.py DEFINITION...: turn a planted bug's definition into /verif/seeded/<id>.

A definition is a Python file with PROP, EDITS = [(file, old, new), ...], DEMO
(Python source; run in the repository, fails if the bug is there), NEEDS, BREAKS.
Everything is confirmed in a scratch copy of /repo: the patch touches lines of the
original repository only, the stable tests pass, the demonstration passes before and
fails after the change. Prints whether the property's check notices it.
"""
import json, os, re, shutil, subprocess, sys, tempfile

BASE = "9655f97"
PY = "/opt/venv/bin/python"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
           OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", TQDM_DISABLE="1")
SH = """#!/bin/bash
# Run in the repository: exit 0 if it behaves, nonzero if the change is there.
HERE=$(cd "$(dirname "$0")" && pwd)
SCRATCH=$(mktemp -d)
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg TQDM_DISABLE=1 OMP_NUM_THREADS=1
export MPLCONFIGDIR="$SCRATCH/mpl" TMPDIR="$SCRATCH" PYTHONPATH="$PWD"
cp -r /opt/vp/mplconfig "$SCRATCH/mpl" 2>/dev/null
/opt/venv/bin/python -B "$HERE/demo.py"
CODE=$?
rm -rf "$SCRATCH"
exit $CODE
"""


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, env=ENV, **kw)


def tests(copy, out):
    sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-W", "ignore", "--rootdir=" + copy, "-o", "python_files=*_test.py",
        "--timeout=300", "--continue-on-collection-errors", "-o", "junit_family=xunit2", "--junitxml=" + out, "test"], copy)
    import xml.etree.ElementTree as ET
    good = set()
    for c in ET.parse(out).getroot().iter("testcase"):
        if not any(x.tag in ("failure", "error", "skipped") for x in c):
            good.add("%s::%s" % (c.get("classname"), c.get("name")))
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return sorted(stable - good)


def plant(path, check=True):
    d = {}
    exec(compile(open(path).read(), path, "exec"), d)
    ident = os.path.splitext(os.path.basename(path))[0]
    scratch = tempfile.mkdtemp(prefix="plant-")
    copy = os.path.join(scratch, "repo")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", copy], check=True)
        demo = os.path.join(scratch, "demo")
        os.mkdir(demo)
        open(os.path.join(demo, "demo.sh"), "w").write(SH)
        open(os.path.join(demo, "demo.py"), "w").write(d["DEMO"].lstrip())
        before = sh(["bash", os.path.join(demo, "demo.sh")], copy, timeout=290)
        if before.returncode != 0:
            print(ident, "DEMO FAILS ON THE UNCHANGED TREE", before.stdout[-500:], before.stderr[-1500:])
            return False
        for f, old, new in d["EDITS"]:
            assert "test/" not in f
            p = os.path.join(copy, f)
            text = open(p).read()
            if text.count(old) != 1:
                print(ident, f, "text occurs", text.count(old), "times:", old)
                return False
            blame_lines = []
            start = text[: text.index(old)].count("\n") + 1
            end = start + old.rstrip("\n").count("\n")
            b = sh(["git", "blame", "-s", "-L", "%d,%d" % (start, end), f], copy).stdout
            own = set(sh(["git", "rev-list", BASE + "..HEAD"], copy).stdout.split())
            changed = set(old.split("\n")) - set(new.split("\n"))
            for l in b.splitlines():
                h = l.split()[0].lstrip("^")
                if any(o.startswith(h) for o in own) and l.split(") ", 1)[-1] in changed:
                    print(ident, "touches a line of an own commit:", l)
                    return False
            open(p, "w").write(text.replace(old, new))
        diff = sh(["git", "diff"], copy).stdout
        broken = tests(copy, os.path.join(scratch, "junit.xml"))
        if broken:
            print(ident, "TESTS NOTICE IT:", broken[:5])
            return False
        after = sh(["bash", os.path.join(demo, "demo.sh")], copy, timeout=290)
        if after.returncode == 0:
            print(ident, "DEMO DOES NOT FAIL")
            return False
        out = os.path.join(V, "seeded", ident)
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        shutil.copy(os.path.join(demo, "demo.sh"), out)
        shutil.copy(os.path.join(demo, "demo.py"), out)
        json.dump({"property": d["PROP"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        print(ident, "planted; the demonstration says:", (after.stdout + after.stderr).strip().splitlines()[-1][:150])
        if check:
            found = sh_check(d["PROP"], copy)
            record(ident, "caught: " + re.sub(r"^violated: (.*?)  \(.*", r"\1", found[1]) if found[0] else "missed")
            print(ident, "CAUGHT" if found[0] else "*** MISSED ***", found[1])
            return found[0]
        return True
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def record(ident, text):
    path = os.path.join(V, "tools", "caught.json")
    d = json.load(open(path)) if os.path.exists(path) else {}
    d[ident] = text
    json.dump(d, open(path, "w"), indent=1, sort_keys=True)


def sh_check(prop, copy):
    env = {k: v for k, v in os.environ.items() if k != "CLS1_CHECK"}
    env["CLS1_REPO"] = copy
    r = subprocess.run(["python3", os.path.join(V, "harness", "check.py"), prop], cwd=V, env=env, capture_output=True, text=True)
    caught = r.returncode == 1 and ("VIOLATION property=%s " % prop) in r.stdout
    if not caught:
        return caught, (r.stdout + r.stderr).strip()[-600:]
    lines = r.stdout.strip().splitlines()
    return caught, next((l for l in lines if l.startswith("violated")), lines[0])[:200]


def recheck(ident):
    """Run the check of an already planted bug again."""
    out = os.path.join(V, "seeded", ident)
    prop = json.load(open(os.path.join(out, "meta.json")))["property"]
    scratch = tempfile.mkdtemp(prefix="plant-")
    copy = os.path.join(scratch, "repo")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", copy], check=True)
        subprocess.run(["git", "apply", os.path.join(out, "patch.diff")], cwd=copy, check=True)
        found = sh_check(prop, copy)
        record(ident, "caught: " + re.sub(r"^violated: (.*?)  \(.*", r"\1", found[1]) if found[0] else "missed")
        print(ident, prop, "CAUGHT" if found[0] else "*** MISSED ***", found[1])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    for a in sys.argv[1:]:
        if a.endswith(".py"):
            plant(a)
        else:
            recheck(a)
