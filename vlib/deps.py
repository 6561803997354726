"""Hypothesis for the project's interpreter, from the offline wheelhouse, into /verif/.deps
(ignored by git).  No state of the virtual environment is changed."""
import glob
import os
import shutil
import sys
import tempfile
import zipfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEPS = os.path.join(VERIF, ".deps")
WHEELS = "/opt/veriftools/wheels"
NEED = ("hypothesis", "sortedcontainers", "attrs")


def _pick(name):
    import sysconfig

    c = sorted(glob.glob(os.path.join(WHEELS, name + "-*.whl")))
    tag = f"cp{sys.version_info[0]}{sys.version_info[1]}"
    best = [w for w in c if "none-any" in w] + [w for w in c if tag in w or "abi3" in w]
    return best[-1] if best else None


def install():
    tmp = tempfile.mkdtemp(prefix=".deps.", dir=VERIF)
    for n in NEED:
        w = _pick(n)
        if w is None:
            raise SystemExit(f"no wheel for {n} in {WHEELS}")
        with zipfile.ZipFile(w) as z:
            z.extractall(tmp)
    try:
        os.rename(tmp, DEPS)
    except OSError:  # somebody else was faster
        shutil.rmtree(tmp, ignore_errors=True)


def ensure():
    if not os.path.isdir(os.path.join(DEPS, "hypothesis")):
        install()
    if DEPS not in sys.path:
        sys.path.insert(0, DEPS)


if __name__ == "__main__":
    ensure()
    import hypothesis

    print("hypothesis", hypothesis.__version__)
