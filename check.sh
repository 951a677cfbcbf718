#!/bin/bash
# usage: check.sh <property id> <quick|thorough>
cd "$(dirname "$0")" || exit 3
export PATH=/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MKL_THREADING_LAYER=SEQUENTIAL
export OMP_NUM_THREADS=2 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMEXPR_NUM_THREADS=2
unset PYTHONPATH PYTHONHOME TOMOPY_FFT_IMPL CUDA_VERSION TOMOPY_PYTHON_THREADS TOMOPY_USE_C_ALGORITHMS
exec /opt/venv/bin/python -m vp.run "$1" "${2:-quick}"
