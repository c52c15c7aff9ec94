#!/usr/bin/env python3
"""Nothing to build: see that the interpreters and the solver the checks need are there."""
import os
import subprocess
import sys
VT = '/opt/veriftools/pyvenv/bin/python'
CON = '/opt/venv/bin/python'
subprocess.run([VT, '-c', 'import z3, numpy, scipy; s = z3.Solver(); x = z3.Int("x"); s.add(x > 1); assert s.check() == z3.sat; print(z3.get_version_string())'], check=True)
subprocess.run([CON, '-c', 'import numpy'], check=True)
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'evidence'), exist_ok=True)
print('ok')
