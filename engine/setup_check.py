"""Nothing to build: make sure the interpreter of the library and the solver are there."""
import subprocess
import sys
PY = '/opt/venv/bin/python'
code = "import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); import z3, pySLM2; print(z3.get_version_string(), pySLM2.__file__)"
sys.exit(subprocess.call([PY, '-B', '-c', code]))
