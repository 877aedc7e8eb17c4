#!/usr/bin/env python3
"""Entry point: check.py <PROPERTY> [--replay FILE].  See DESIGN.md."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
WANT = "/opt/venv/bin/python"
ENV = {
    "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "OMP_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "PYTHONPYCACHEPREFIX": "/nonexistent-pycache",
}

if os.environ.get("PBT_BOOTED") != "1":
    env = dict(os.environ)
    env.update(ENV)
    env["PBT_BOOTED"] = "1"
    env.pop("PYTHONPATH", None)
    exe = WANT if os.path.exists(WANT) else sys.executable
    os.execve(exe, [exe, "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, HERE)
from pbt import boot  # noqa: E402

boot.setup()
from pbt import core  # noqa: E402

sys.exit(core.main(sys.argv[1:]))
