#!/bin/bash
# nothing to build: the checks trace /repo's current source at run time; only confirm that the tools are there
cd "$(dirname "$0")" || exit 1
exec /opt/venv/bin/python -c "import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); import z3, jax; print('z3', z3.get_version_string(), 'jax', jax.__version__)"
