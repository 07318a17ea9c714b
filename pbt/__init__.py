"""Property-based checks for edk2-pytool-library: small harness on top of Hypothesis."""
import sys

_HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _HYP not in sys.path:
    sys.path.append(_HYP)  # appended: /opt/venv's own packages win

from .core import Check, Ctx, expect, fail, rejects, st  # noqa: E402,F401
