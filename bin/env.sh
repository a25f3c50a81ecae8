# sourced by every entry point
VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
export HOME=/root LANG=${LANG:-C.UTF-8} PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=${PYTHONHASHSEED:-0} DISABLE_CONTRACTS=1
export MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
export DG_SRC="${DG_SRC:-/repo/src}"
export PYTHONPATH="$DG_SRC:$VERIF_DIR"
MC_SCRATCH="$(mktemp -d /tmp/mc_scratch.XXXXXX)"
export MC_SCRATCH MPLCONFIGDIR="$MC_SCRATCH"
trap 'case "$MC_SCRATCH" in /tmp/mc_scratch.*) rm -rf "$MC_SCRATCH";; esac' EXIT
PY=/opt/venv/bin/python
