#!/bin/bash
# usage: run.sh <PROPERTY> [--tier quick|thorough] [--seed N] [--case I] [--replay FILE]
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 DATAPROFILER_SEED=0 CUDA_VISIBLE_DEVICES=-1
export TF_CPP_MIN_LOG_LEVEL=3 MPLBACKEND=Agg AWS_EC2_METADATA_DISABLED=true
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 TF_NUM_INTRAOP_THREADS=1 TF_NUM_INTEROP_THREADS=1
export PYTHONPATH="${VP_REPO:-/repo}:$here" VP_HOME="$here"
export KERAS_HOME="${KERAS_HOME:-/tmp/.vp_keras}"
exec /opt/venv/bin/python -W ignore -m vp.main "$@"
