#!/usr/bin/env python3
"""
run_check.py <ID> [--tier quick|thorough] [--seed N] [--replay FILE] [--cases N]

Runs the monitors of one property against the code in /repo (working tree).
Re-executes itself with the interpreter of the repository's virtual
environment, a fixed hash seed and single threaded BLAS.
"""
import os, sys
REPO = os.environ.get("MAXLIKE_REPO", "/repo")
PY = "/opt/venv/bin/python"
ENV = dict(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
           OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
           MKL_NUM_THREADS="1", PYTHONPATH=REPO)
if os.environ.get("_MON_CHILD") != "1" and os.path.exists(PY):
    env = dict(os.environ); env.update(ENV); env["_MON_CHILD"] = "1"
    os.execve(PY, [PY, "-W", "ignore"] + sys.argv, env)
sys.path.insert(0, REPO)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mon import core
sys.exit(core.main(sys.argv[1:]))
