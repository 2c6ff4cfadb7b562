#!/bin/bash
# ./check.sh <property> [--replay FILE]   (tier from VERIF_TIER: quick | thorough)
# Rebuilds the driver against /repo's working tree and runs it.
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$HERE"
ID="$1"; shift
. "$HERE/tools/env.sh"
if [ -f "$HERE/pychecks/$ID.py" ]; then
    build_python || { echo "$ID: build failed"; exit 3; }
    exec env PYTHONPATH="$STAGE:$HERE/pychecks" PYTHONDONTWRITEBYTECODE=1 RUST_BACKTRACE=0 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 \
        "$VENV_PY" "$HERE/pychecks/$ID.py" "$@"
fi
BIN="$(echo "$ID" | tr 'A-Z' 'a-z')"
build_rust "$BIN" || { echo "$ID: build failed"; exit 3; }
ulimit -c 0
PART="$HERE/pychecks/${ID}_part.py"
if [ ! -f "$PART" ]; then exec env RUST_BACKTRACE=0 "$CARGO_TARGET_DIR/release/$BIN" "$@"; fi
# a second, Python part of the same property: both must hold; replays of the Python part end in .py.json
py() { build_python || { echo "$ID: build failed"; exit 3; }
    env PYTHONPATH="$STAGE:$HERE/pychecks" PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 "$VENV_PY" "$PART" "$@"; }
case "${2:-}" in *.py.json) py "$@"; exit $?;; esac
RUST_BACKTRACE=0 "$CARGO_TARGET_DIR/release/$BIN" "$@"; r=$?
[ $# -gt 0 ] && exit $r
py; p=$?
[ $r -ne 0 ] && exit $r
exit $p
