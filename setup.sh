#!/bin/bash
# Builds everything once; each check rebuilds what /repo's working tree changed.
HERE="$(cd "$(dirname "$0")" && pwd)"
. "$HERE/tools/env.sh"
cd "$HERE/harness/src/bin" && build_rust $(ls *.rs | sed 's/\.rs$//') || exit 1
if ls "$HERE/pychecks/"P*.py >/dev/null 2>&1; then build_python || exit 1; fi
