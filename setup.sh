#!/bin/bash
# Nothing to compile: check that the package and the framework import.
cd "$(dirname "$0")" || exit 2
export PYTHONPATH="/repo:$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
/opt/venv/bin/python -W ignore -c "import numpy, scipy, numba, conmech, mc.core, mc.meshes, mc.meshref"
