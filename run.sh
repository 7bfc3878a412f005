#!/bin/bash
# run.sh ID [quick|thorough] [--replay FILE]: run one check against /repo's working tree
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="/repo:$here" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg \
  OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONWARNINGS=ignore HDF5_USE_FILE_LOCKING=FALSE
exec /opt/venv/bin/python -W ignore -m mc.main "$@"
