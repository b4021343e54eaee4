#!/bin/bash
# Builds the simulator against /repo's working tree and runs one check.
# usage: check.sh <property> [quick|thorough]
cd "$(dirname "$0")" || exit 2
[ -n "$2" ] && export VERIF_TIER="$2"
bash build.sh "$1" || exit 2
exec "./sim/target/bin/$1" check "$1"
