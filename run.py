#!/usr/bin/env python3
"""Entry point of every check:  run.py <PROPERTY> [--tier quick|thorough] [--replay FILE] [--sub NAME]

Exit 0: held on everything explored.  Exit 1 + "VIOLATION property=<id> replay=<path>": broken.
Anything else: an error of the check itself.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
REPO = os.environ.get("VERIF_REPO", "/repo")


def clean_env():
    env = {k: v for k, v in os.environ.items()
           if k in ("HOME", "PATH", "TMPDIR", "VERIF_SEED", "VERIF_TIER", "VERIF_REPO", "VERIF_WORKERS", "VERIF_SCALE")}
    env.setdefault("PATH", "/usr/local/bin:/usr/bin:/bin")
    env.setdefault("HOME", "/root")
    env.update(PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONUTF8="1",
               PYTHONPYCACHEPREFIX="/nonexistent-pycache", PYTHONUNBUFFERED="1",
               TZ="UTC", LANG="C.UTF-8", MPLBACKEND="Agg", VERIF_CLEAN="1",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", HDF5_USE_FILE_LOCKING="FALSE")
    return env


if __name__ == "__main__":
    if os.environ.get("VERIF_CLEAN") != "1":
        os.chdir(HERE)
        os.execve(PY, [PY, "-W", "ignore", os.path.join(HERE, "run.py")] + sys.argv[1:], clean_env())
    sys.path.insert(0, HERE)
    sys.dont_write_bytecode = True
    from vp import core
    sys.exit(core.main(sys.argv[1:]))
