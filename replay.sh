#!/bin/bash
# usage: replay.sh <replay file>: rebuilds the C libraries from /repo and reruns the failing case (exit 1: it still fails).
F=$(realpath "$1")
cd "$(dirname "$0")" || exit 3
export PATH=/opt/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MKL_THREADING_LAYER=SEQUENTIAL
exec /opt/venv/bin/python -m vp.replay "$F"
