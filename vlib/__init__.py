"""Solver-based checking machinery. Importing this package sets up the import path."""
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
_SRC = os.path.join(REPO, "src")
# The real code always comes from the working tree.
if _SRC not in sys.path:
    sys.path.insert(0, _SRC)
# z3 comes from the tooling venv; it is last, so that the repository's own dependencies win.
_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)
sys.dont_write_bytecode = True
