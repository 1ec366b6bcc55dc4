"""
setup_cmd: checks that what the checks need is there (nothing has to be built,
every check runs the Python code in /repo as it is at that moment).
"""
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mgv import core  # noqa

r = subprocess.run([core.PYTHON, "-c", "import objectgraph, sys; print(sys.version)"], capture_output=True, text=True)
print(r.stdout, r.stderr)
sys.exit(r.returncode)
