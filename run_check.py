#!/opt/venv/bin/python
"""run_check.py ID [--replay FILE]: decide one property on /repo's working tree.

VERIF_SEED and VERIF_TIER (quick | thorough) come from the environment."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
WANT = {
    "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg",
    "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1",
}
if any(os.environ.get(k) != v for k, v in WANT.items()) or not sys.executable.startswith("/opt/venv/"):
    env = dict(os.environ, **WANT)
    for k in ("PYTHONPATH", "PYTHONWARNINGS", "PYTHONOPTIMIZE"):
        env.pop(k, None)
    os.execve(PY, [PY, os.path.abspath(__file__), *sys.argv[1:]], env)

sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
from vlib import deps  # noqa: E402

deps.ensure()
# the code under test: always the working tree of /repo
SRC = os.environ.get("VERIF_REPO", "/repo") + "/src"
sys.path.insert(0, SRC)

from vlib import core  # noqa: E402


def main():
    pid = sys.argv[1]
    if "--replay" in sys.argv:
        return core.replay(pid, sys.argv[sys.argv.index("--replay") + 1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    import finoptions

    got = os.path.realpath(finoptions.__file__)
    if not got.startswith(os.path.realpath(SRC) + os.sep):
        print(f"finoptions comes from {got}, not from {SRC}", file=sys.stderr)
        return 2
    return core.run(pid, tier, seed)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
