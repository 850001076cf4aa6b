#!/bin/bash
# ./run.sh C01   run one check against the repository's working tree (VERIF_SEED, VERIF_TIER from the environment)
cd "$(dirname "$0")" || exit 3
id="$1"; shift
scratch=$(mktemp -d /tmp/verif-XXXXXX) || exit 3
trap 'rm -rf -- "$scratch"' EXIT
export PATH=/opt/venv/bin:$PATH
export VERIF_REPO="${VERIF_REPO:-/repo}" VERIF_SEED="${VERIF_SEED:-1}" VERIF_TIER="${VERIF_TIER:-quick}"
export PYTHONWARNINGS=ignore PYTHONPATH="$VERIF_REPO:$PWD/lib" PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX="$scratch/pyc"
export NUMBA_CACHE_DIR="$scratch/numba" MPLBACKEND=Agg MPLCONFIGDIR="$scratch/mpl" VERIF_SCRATCH="$scratch" TMPDIR="$scratch"
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
script=$(ls checks/${id,,}_*.py 2>/dev/null | head -1)
[ -f "$script" ] || { echo "no check for $id"; exit 3; }
/opt/venv/bin/python -B "$script" "$@"
exit $?
