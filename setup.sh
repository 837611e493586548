#!/bin/bash
# nothing to build: the checks instrument the source of /repo when they load it. This only tests that the tools are there.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
mkdir -p evidence
export PYTHONDONTWRITEBYTECODE=1
python3-vt -c 'import z3, engine.check' && /opt/venv/bin/python -c 'import bitcointx'
