#!/usr/bin/env python3
"""Offline setup: nothing to build; checks that the interpreter of the repository and the solvers answer."""
import subprocess
import sys
r = subprocess.run(['/opt/venv/bin/python', '-c', 'import jax, cr.sparse; print(jax.__version__, cr.sparse.__file__)'],
                   env={'JAX_PLATFORMS': 'cpu', 'MPLBACKEND': 'Agg', 'PYTHONDONTWRITEBYTECODE': '1', 'PATH': '/usr/bin:/bin', 'HOME': '/tmp'},
                   cwd='/tmp')
for t in ('z3', 'cvc5'):
    print(subprocess.run([t, '--version'], capture_output=True, text=True).stdout.splitlines()[0])
sys.exit(r.returncode)
