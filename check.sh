#!/bin/bash
# check.sh PID quick|thorough -- runs the check for one property against /repo's working tree.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export PYTHONPATH="$PWD:$PWD/vendor:${VERIF_REPO:-/repo}"
export JAX_PLATFORMS=cpu CUDA_VISIBLE_DEVICES= MPLBACKEND=agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
export TMPDIR="${TMPDIR:-/tmp}"
exec /opt/venv/bin/python run.py "$@"
