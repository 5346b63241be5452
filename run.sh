#!/bin/bash
# run.sh check C05            run one property's check (VERIF_TIER, VERIF_SEED)
# run.sh replay FILE          re-run a replay file against the current tree
# run.sh setup                sanity-check the toolchain
cd "$(dirname "$0")" || exit 2
export PYTHONPATH="${VP_REPO:-/repo}" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONPATH="$PYTHONPATH:$PWD"
exec /opt/venv/bin/python -W ignore -m vp.main "$@"
