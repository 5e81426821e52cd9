#!/bin/bash
# usage: bash replay.sh replays/ID/xxxx.json
here="$(dirname "$(readlink -f "$0")")"
file="$(readlink -f "$1")"
cd "$here" || exit 2
. ./env.sh
exec "$MC_PYTHON" -W ignore -B -m mc.replay "$file"
