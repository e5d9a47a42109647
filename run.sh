#!/bin/bash
# run.sh C01 [--replay FILE]   (VERIF_SEED, VERIF_TIER from the environment)
export HOME=${HOME:-/root} LANG=${LANG:-C.UTF-8} PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 NUMEXPR_NUM_THREADS=1 NUMEXPR_MAX_THREADS=8
export OPENBLAS_CORETYPE=Haswell
export NPY_DISABLE_CPU_FEATURES="AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL"
cd "$(dirname "$0")" || exit 2
MPLCONFIGDIR=$(mktemp -d /tmp/verif-mpl-XXXXXX); export MPLCONFIGDIR
[ -d /opt/venv/mpl ] && cp -r /opt/venv/mpl/. "$MPLCONFIGDIR"/ 2>/dev/null
trap 'rm -rf "$MPLCONFIGDIR"' EXIT
/opt/venv/bin/python -W ignore -m vlib.main "$@"
