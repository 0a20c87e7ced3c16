"""Unpacks Hypothesis (offline wheels shipped with the sandbox) into /verif/.deps, which git ignores."""
import glob
import os
import shutil
import sys
import tempfile
import zipfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEPS = os.path.join(ROOT, ".deps")
WHEELS = "/opt/veriftools/wheels"
NEEDED = ["hypothesis-*-cp312-*.whl", "sortedcontainers-*.whl"]


def wheel(pattern):
    found = sorted(glob.glob(os.path.join(WHEELS, pattern)))
    if not found and pattern.startswith("hypothesis"):
        found = sorted(glob.glob(os.path.join(WHEELS, "hypothesis-*.whl")))
    if not found:
        raise SystemExit(f"harness error: no wheel {pattern} in {WHEELS}")
    return found[-1]


def ensure():
    if not os.path.isfile(os.path.join(DEPS, "ok")):
        tmp = tempfile.mkdtemp(prefix=".deps-", dir=ROOT)
        for pattern in NEEDED:
            with zipfile.ZipFile(wheel(pattern)) as z:
                z.extractall(tmp)
        open(os.path.join(tmp, "ok"), "w").close()
        if os.path.isdir(DEPS):
            shutil.rmtree(DEPS, ignore_errors=True)
        try:
            os.rename(tmp, DEPS)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    if DEPS not in sys.path:
        sys.path.insert(1, DEPS)


if __name__ == "__main__":
    ensure()
    import hypothesis
    print("hypothesis", hypothesis.__version__, "ready in", DEPS)
