#!/usr/bin/env python3
"""Run a check:  run.py C01   |   replay a violation:  run.py --replay FILE"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = "/opt/venv/bin/python"
REPO = os.environ.get("VERIF_REPO_SRC", "/repo/src")  # (override: development only)

if os.environ.get("_VERIF_ENV") != "1":
    env = dict(
        os.environ,
        _VERIF_ENV="1",
        MPLBACKEND="Agg",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        PYTHONPATH=os.pathsep.join([REPO, os.path.join(HERE, "lib"), HERE]),
        MPLCONFIGDIR=os.path.join(HERE, "out", "mpl"),
    )
    os.makedirs(env["MPLCONFIGDIR"], exist_ok=True)
    exe = VENV if os.path.exists(VENV) else sys.executable
    os.execve(exe, [exe, "-B", os.path.abspath(__file__), *sys.argv[1:]], env)

import engine  # noqa: E402

if sys.argv[1] == "--replay":
    sys.exit(engine.replay(sys.argv[2]))
sys.exit(
    engine.main(
        sys.argv[1],
        os.environ.get("VERIF_TIER", "quick") if len(sys.argv) < 3 else sys.argv[2],
        int(os.environ.get("VERIF_SEED", "1") or 1),
    )
)
