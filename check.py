#!/usr/bin/env python3
"""python3 check.py --setup | <property id> [--thorough] [--replay FILE] [--runs N] [--all] [-v]"""
import os
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
REPO = os.environ.get("LINGAM_REPO", "/repo")


def main():
    if os.environ.get("LINGAM_SIM_CHILD") != "1":
        env = dict(os.environ)
        scratch = tempfile.mkdtemp(prefix="lingam-sim-")
        env.update(LINGAM_SIM_CHILD="1", PYTHONHASHSEED=env.get("SIM_HASHSEED", "0"), PYTHONDONTWRITEBYTECODE="1",
                   MPLBACKEND="Agg", MPLCONFIGDIR=scratch, OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
                   MKL_NUM_THREADS="1", LINGAM_SIM_SCRATCH=scratch, PYTHONPATH=REPO + os.pathsep + HERE,
                   PYTHONWARNINGS="ignore", JOBLIB_MULTIPROCESSING="0", TMPDIR=scratch)
        import subprocess
        py = PY if os.path.exists(PY) else sys.executable
        try:
            rc = subprocess.call([py, os.path.abspath(__file__)] + sys.argv[1:], env=env, cwd=HERE)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        sys.exit(rc if rc in (0, 1) else 2)
    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
    try:
        import lingam
    except BaseException as e:
        print("cannot import lingam from %s: %r" % (REPO, e), file=sys.stderr)
        sys.exit(2)
    pkg = os.path.dirname(os.path.realpath(lingam.__file__))
    assert pkg.startswith(os.path.realpath(REPO)), pkg
    from sim import core, seams, models  # noqa: F401
    seams.set_package(pkg)
    if sys.argv[1] == "--setup":
        import importlib
        for f in sorted(os.listdir(os.path.join(HERE, "sim", "checks"))):
            if f.startswith("c") and f[1:3].isdigit():
                importlib.import_module("sim.checks." + f[:-3])
        print("lingam imported from %s; nothing to build" % pkg)
        sys.exit(0)
    sys.exit(core.main_check(sys.argv[1], sys.argv[2:]))


if __name__ == "__main__":
    main()
