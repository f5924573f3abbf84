#!/bin/bash
# ./run.sh check C05            one property check (VERIF_SEED, VERIF_TIER)
# ./run.sh check C05 --replay F reproduce a replay file
# ./run.sh selftest             determinism self test of the simulator
HERE=$(cd "$(dirname "$0")" && pwd)
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
PY=${PY:-/opt/venv/bin/python}
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONHASHSEED=${SIM_HASHSEED:-0} PYTHONDONTWRITEBYTECODE=1
export PYTHONPATH="$HERE"
unset EXOPLANET_FORCE_PYMC3
SCRATCH=$(mktemp -d /tmp/verif-sim.XXXXXX) || exit 2
trap 'find "$SCRATCH" -depth -delete 2>/dev/null' EXIT
trap 'exit 2' INT TERM
export SIM_SCRATCH="$SCRATCH"
export HOME="$SCRATCH"
unset XDG_CACHE_HOME XDG_CONFIG_HOME
export PYTENSOR_FLAGS="cxx=,mode=FAST_COMPILE,floatX=float64,base_compiledir=$SCRATCH/pt"
cd "$HERE" || exit 2
"$PY" -m sim.cli "$@"
exit $?
