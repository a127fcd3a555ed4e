#!/bin/bash
# nothing to build: verify that the interpreter can import the code under test and the framework
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
mkdir -p evidence/replay
exec /opt/venv/bin/python -c "import mc.core, mc.registry, mc.ref; import carbon; print('ok', carbon.__file__)"
