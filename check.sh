#!/bin/bash
# check.sh PROPERTY [quick|thorough] [extra flags]: build the harness from
# /repo's working tree and decide one property.
cd "$(dirname "$0")" || exit 2
prop=$1; tier=${2:-${VERIF_TIER:-quick}}; shift; shift
bin=$(tools/build.sh "$prop") || exit 2
# Keep generous limits away from the harness: a goroutine dump must stay small.
export GODEBUG=tracebacklabels=0
exec "$bin" -prop "$prop" -tier "$tier" -seed "${VERIF_SEED:-1}" -verif "$PWD" "$@"
