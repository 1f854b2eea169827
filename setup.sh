#!/bin/bash
# Checks that the tools the framework needs are there; nothing is built ahead of time.
set -e
cd "$(dirname "$0")"
/opt/acados-env/venv/bin/python -c "
import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3, casadi, numpy; print('z3', z3.get_version_string(), 'casadi', casadi.__version__)"
cbmc --version; clang --version | head -1; gcc --version | head -1
