#!/bin/bash
# py.sh FILE..: development helper, the project's Python with the checks' environment
here="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"; repo="${VF_REPO:-/repo}"
export PYTHONPATH="$repo/interfaces/acados_template:$here" ACADOS_SOURCE_DIR="$repo" ACADOS_INSTALL_DIR="$repo" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg VF_REPO="$repo" VF_HOME="$here"
exec /opt/acados-env/venv/bin/python "$@"
