"""setup: the toolchain is there and every specification module typechecks."""
import glob
import os
import shutil
import subprocess
import sys
import tempfile

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")


def main():
    d = tempfile.mkdtemp(prefix="qspec-setup-")
    try:
        for f in glob.glob(os.path.join(SPEC, "*.qnt")):
            shutil.copy(f, d)
        bad = 0
        for f in sorted(glob.glob(os.path.join(d, "*.qnt"))):
            r = subprocess.run(["quint", "typecheck", f], capture_output=True, text=True, cwd=d)
            print("%s %s" % ("ok " if r.returncode == 0 else "BAD", os.path.basename(f)))
            if r.returncode:
                print(r.stdout[-1000:], r.stderr[-1000:])
                bad = 1
        return bad
    finally:
        shutil.rmtree(d, ignore_errors=True)


sys.exit(main())
