"""nothing to build: check that the tools the checks need are present"""
import subprocess, sys, shutil
PROVER = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python3"
a = subprocess.run([PROVER, "-c", "import z3, sympy, libcst; print('prover ok')"]).returncode
b = subprocess.run(["/opt/venv/bin/python", "-c", "import torch, scipy, mpmath; print('oracle ok')"]).returncode
sys.exit(a or b)
