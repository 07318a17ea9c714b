#!/bin/bash
# usage: check.sh <property-id> [--tier quick|thorough] [--replay FILE] [--sub NAME]
# Runs one property's generated checks against /repo's current tree (VERIF_REPO overrides the tree, for development only).
here="$(cd "$(dirname "$0")" && pwd)"
scratch="$(mktemp -d /tmp/verif-check.XXXXXXXX)" || exit 3
trap 'rm -rf -- "$scratch"' EXIT
trap 'exit 3' INT TERM
export VERIF_SCRATCH="$scratch"
export VERIF_REPO="${VERIF_REPO:-/repo}"
export VERIF_SEED="${VERIF_SEED:-1}"
export PYTHONHASHSEED="${PYTHONHASHSEED:-0}"
export PYTHONPYCACHEPREFIX="$scratch/pyc"
export HYPOTHESIS_STORAGE_DIRECTORY="$scratch/hyp"
export PYTHONPATH="$VERIF_REPO"
export TMPDIR="$scratch"
export HOME="$scratch"
export GIT_CONFIG_NOSYSTEM=1 GIT_CONFIG_GLOBAL=/dev/null
export PYTHONWARNINGS=ignore
export LC_ALL=C.UTF-8 TZ=UTC
cd "$scratch" || exit 3
/opt/venv/bin/python "$here/pbt/run.py" "$@"
exit $?
