#!/bin/bash
# decide one property by symbolic execution of the code in /repo
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec python3-vt -m engine.check "$@"
