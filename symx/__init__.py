"""Symbolic execution of real Python code with z3 (see DESIGN.md)."""
import os
import sys

_Z3_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _Z3_SITE not in sys.path:
    sys.path.append(_Z3_SITE)      # appended: the project's own packages win
