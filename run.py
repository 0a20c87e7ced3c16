"""Entry point of every check:  /opt/venv/bin/python run.py C01   |   run.py --replay FILE

Tier and seed come from VERIF_TIER (quick/thorough) and VERIF_SEED.
"""
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"


def main():
    if os.environ.get("VERIF_INNER") != "1":
        # run in a clean child: fixed hash seed, one thread per process, no writes outside a scratch folder
        scratch = tempfile.mkdtemp(prefix="verif-")
        env = dict(os.environ, VERIF_INNER="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
                   MKL_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", MPLCONFIGDIR=scratch,
                   VERIF_SCRATCH=scratch, HOME=scratch, TMPDIR=scratch, PYTHONPATH="", PYTHONNOUSERSITE="1",
                   HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(scratch, "hyp"))
        try:
            rc = subprocess.call([PY, os.path.abspath(__file__)] + sys.argv[1:], env=env, cwd=ROOT)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        sys.exit(rc if rc in (0, 1) else 2)
    sys.path.insert(0, ROOT)
    sys.path.insert(0, REPO)
    from lib import bootstrap
    bootstrap.ensure()
    from lib import harness
    if sys.argv[1:2] == ["--replay"]:
        sys.exit(harness.replay(sys.argv[2]))
    sys.exit(harness.run(sys.argv[1]))


if __name__ == "__main__":
    main()
