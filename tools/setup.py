"""nothing to build: everything is read from /repo on every run. Checks that the tools are there."""
import subprocess, sys
import z3
subprocess.run(["/opt/venv/bin/python", "-c", "import numpy, numba, pandas, sympy"], check=True)
print("z3", z3.get_version_string(), "python", sys.version.split()[0])
