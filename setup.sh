#!/bin/bash
# Nothing has to be built: the explorer is Python, the package is imported from /repo. Checks that all is there.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
. ./env.sh
mkdir -p evidence replays
exec "$MC_PYTHON" -W ignore -B -c '
from mc.checks.registry import MODULES, load
for name in MODULES:
    load(name)
print("ready: %d checks" % len(MODULES))'
