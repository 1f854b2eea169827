#!/bin/bash
# run.sh <check-id> [args]: runs one check (or a replay) with the project's Python plus the z3 bindings.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
repo="${VF_REPO:-/repo}"
export HOME="${HOME:-/root}" LANG=C.UTF-8
export PYTHONPATH="$repo/interfaces/acados_template:$here"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export ACADOS_SOURCE_DIR="$repo" ACADOS_INSTALL_DIR="$repo" ACADOS_ON_CI=ON MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export VF_REPO="$repo" VF_HOME="$here"
if [ -z "$MPLCONFIGDIR" ]; then export MPLCONFIGDIR="$(mktemp -d /tmp/vfmpl.XXXXXX)"; trap 'rm -rf "$MPLCONFIGDIR"' EXIT; fi
id="$1"; shift
/opt/acados-env/venv/bin/python "$here/vf/main.py" "$id" "$@"
