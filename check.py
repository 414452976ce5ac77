#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE]"""
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
if os.environ.get("SYMX_CHILD") != "1":
    env = dict(os.environ, SYMX_CHILD="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               MPLBACKEND="Agg", MPLCONFIGDIR=os.environ.get("TMPDIR", "/tmp"),
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    os.execve(PY, [PY, "-B", os.path.abspath(__file__)] + sys.argv[1:], env)
sys.path.insert(0, VERIF)
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
from symx import load  # noqa: E402

load.install()
from symx import runner  # noqa: E402

sys.exit(runner.main(sys.argv[1:]))
