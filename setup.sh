#!/bin/bash
# nothing to compile: the checks import PyFHD from /repo's working tree; make sure that the interpreter is there
cd "$(dirname "$0")" || exit 1
mkdir -p evidence/replays
PYTHONPATH="${VERIF_REPO:-/repo}" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore -c "import numpy, scipy, h5py, numba, astropy, yaml, PyFHD; print('ok')"
