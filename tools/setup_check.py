#!/usr/bin/env python3
"""Nothing to build: checks that the solvers and the repository's dependencies can be imported."""
import os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from pyvc import env
e = dict(os.environ, PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
sys.exit(subprocess.call([env.PYTHON, "-c", "from pyvc import env; env.setup(); import z3, cvc5, numpy, contracts; "
                          "contracts.load_all(); print('ok', z3.get_version_string())"], env=e, cwd="/tmp"))
