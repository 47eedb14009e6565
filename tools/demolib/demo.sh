#!/bin/bash
# run from the repository's root: exit 0 if the behaviour is right, 1 if it is broken
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD/py:$here" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
unset RR_TEMPLATE_DIR RR_ARCHETYPE_DIR
exec timeout 250 /opt/venv/bin/python -W ignore "$here/demo.py"
