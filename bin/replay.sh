#!/bin/bash
# bin/replay.sh FILE: runs a replay file again and prints its trace; exit 1 when the violation is reproduced exactly
cd "$(dirname "$0")/.." || exit 2
F=$1; case "$F" in /*) ;; *) F="$OLDPWD/$F";; esac
sim/build.sh >/dev/null || exit 2
build/simcheck --replay "$F" --trace; build/simcheck --replay "$F"
