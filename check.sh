#!/bin/bash
# bash /verif/check.sh ID quick|thorough [--replay FILE]
# Runs one check on /repo's working tree. Nothing is built: the code is Python, and numba
# compiles its kernels from the current source into a cache folder made for this run alone.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/mc.XXXXXXXX) || exit 3
trap 'rm -rf "$work"' EXIT
export PYTHONPATH=/repo:$here PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONWARNINGS=ignore
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1 NUMBA_NUM_THREADS=1
export MPLBACKEND=Agg QT_QPA_PLATFORM=offscreen HOME=/root LANG=C.UTF-8
export NUMBA_CACHE_DIR=$work/numba MPLCONFIGDIR=$work/mpl TMPDIR=$work/tmp
mkdir -p "$work/numba" "$work/mpl" "$work/tmp"
cd "$work/tmp" || exit 3
/opt/venv/bin/python -m mc.run "$@"
r=$?
cd /
exit $r
