#!/bin/bash
# nothing to build: the checks import the working tree of /repo directly. Fails early if that is impossible.
cd "$(dirname "$0")/.." || exit 2
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="${TORCHDYN_REPO:-/repo}" /opt/venv/bin/python -W ignore -c 'import torchdyn.core, torchdyn.numerics, torchdyn.nn, torchdyn.datasets; print("ok")'
