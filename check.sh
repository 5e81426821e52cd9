#!/bin/bash
# usage: bash check.sh ID [quick|thorough]    (default: $VERIF_TIER, else quick)
cd "$(dirname "$(readlink -f "$0")")" || exit 2
. ./env.sh
exec "$MC_PYTHON" -W ignore -B -m mc.run "$@"
