"""Paths of the tools and of the package under verification."""
import os
import sys

REPO = os.environ.get("PYVC_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = "/opt/venv/bin/python"
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("NUMBA_DISABLE_CACHING", "1")
sys.dont_write_bytecode = True


def setup(tools=True):
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    if tools and TOOLS not in sys.path:
        sys.path.append(TOOLS)
    # the package under verification comes from the working tree
    sys.path.insert(0, REPO)
