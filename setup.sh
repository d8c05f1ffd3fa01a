#!/bin/bash
# Nothing to build: the verifier is Python run by /opt/venv with the z3 of the
# tool venv.  Check that the pieces are there and that the engine is sane.
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$PWD
/opt/venv/bin/python -W ignore -m pyver.selftest
