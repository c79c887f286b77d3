#!/bin/bash
# Nothing to build: checks import qadence from /repo's working tree. Verify the environment only.
. /opt/vp/env.sh
cd "$(dirname "$0")" && /opt/venv/bin/python -W ignore -c "import torch, nevergrad, sympy; print('environment ok')"
