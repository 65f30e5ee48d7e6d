#!/bin/bash
# run.sh <PROPERTY> [--replay FILE]   (tier from $VERIF_TIER, default quick)
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
cd "$here" || exit 2
export PYTHONHASHSEED=0 OPENBLAS_CORETYPE=Haswell
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 MKL_NUM_THREADS=1
export PYTHONDONTWRITEBYTECODE=1
unset PYTHONPATH PYTHONSTARTUP PYTHONINSPECT
export VERIF_REPO="${VERIF_REPO:-/repo}"
py=/opt/venv/bin/python
[ -x "$py" ] || py="$(command -v python3)"
# Nothing cached by earlier runs is used: modules compile from the sources.
# All scratch files of the run live in one directory that goes away with it.
scratch="$(mktemp -d "${TMPDIR:-/tmp}/verif-run.XXXXXX")" || exit 2
mkdir "$scratch/pyc" "$scratch/tmp" || exit 2
export PYTHONPYCACHEPREFIX="$scratch/pyc" TMPDIR="$scratch/tmp"
"$py" -W ignore -m mc.main "$@"
rc=$?
case "$scratch" in
  */verif-run.??????) rm -rf -- "$scratch" ;;
esac
exit $rc
