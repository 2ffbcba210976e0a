"""setup: nothing is built ahead; checks that the tools the checks need are present"""
import subprocess, sys
subprocess.check_call(['python3-vt', '-c', 'import z3, numpy, sympy'])
subprocess.check_call(['/opt/venv/bin/python', '-c', 'import numpy, scipy, numba, libdlf'])
