"""z3 / cvc5 / sympy live in the tool venv; they are appended so that numpy,
scipy and pandas keep coming from the interpreter's own site-packages."""
import sys
_P = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _P not in sys.path:
    sys.path.append(_P)
