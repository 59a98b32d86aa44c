#!/bin/bash
# Nothing to build: the library is pure Python and is imported from /repo.
# Checks that everything the monitors need is there.
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="${VMON_REPO:-/repo}:$here" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec "${VMON_PYTHON:-/opt/venv/bin/python}" -W ignore -c '
import numpy, scipy, tables, vmon.core
vmon.core.check_import()
print("ready: numpy", numpy.__version__, "scipy", scipy.__version__, "tables", tables.__version__)
'
