#!/bin/bash
# ./run.sh <property id>      explore (VERIF_TIER=quick|thorough)
# ./run.sh replay <file>      replay one recorded violation
cd "$(dirname "$0")" || exit 2
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export PYTHONPATH="$PWD:${VERIF_REPO:-/repo}" PYTHONDONTWRITEBYTECODE=1
export PYTHONHASHSEED=0 TF_USE_LEGACY_KERAS=1 CUDA_VISIBLE_DEVICES=-1
export TF_CPP_MIN_LOG_LEVEL=3 TF_ENABLE_ONEDNN_OPTS=0
exec /opt/venv/bin/python -W ignore -m mc.engine "$@"
