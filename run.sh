#!/bin/bash
# run.sh <property> [quick|thorough]
cd "$(dirname "$0")" || exit 3
export JAX_PLATFORMS=cpu CUDA_VISIBLE_DEVICES= PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/tmp/nopyc_$$ TF_CPP_MIN_LOG_LEVEL=3
export OMP_NUM_THREADS=2 PYTHONHASHSEED=0
export PYTHONWARNINGS=ignore::SyntaxWarning
exec /opt/venv/bin/python -m checks.run "$1" "${2:-quick}"
