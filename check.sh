#!/bin/bash
# usage: check.sh C01            run the check of one property (VERIF_SEED, VERIF_TIER from the environment)
#        check.sh replay FILE    re-run one recorded case
cd "$(dirname "$0")"
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONWARNINGS=ignore
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
[ -d .deps/hypothesis ] || ./setup.sh >/dev/null 2>&1
export PYTHONPATH="${VP_REPO:-/repo}:$PWD:$PWD/.deps"
exec /opt/venv/bin/python -m vp.main "$@"
