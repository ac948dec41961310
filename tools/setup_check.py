#!/usr/bin/env python3-vt
"""Nothing is compiled: makes sure the provers and the package under test load."""
import os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import z3, cvc5  # noqa: F401,E401
import contracts
C = contracts.load_all()
os.makedirs(os.path.join(H, 'evidence'), exist_ok=True)
os.makedirs(os.path.join(H, 'replays'), exist_ok=True)
subprocess.run(['/opt/venv/bin/python', '-B', '-c', 'import numpy, sklearn, ortools'], check=True)
print('ok', z3.get_version_string(), len(C.funcs), 'contracts')
