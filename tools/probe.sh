#!/bin/bash
# developer aid: probe.sh LANG 'source' [options]  -- prints the srcML the current tree makes
cd "$(dirname "$0")/.." || exit 2
export VERIF_ROOT=$PWD
mkdir -p .cache; cp tools/probe.cpp checks/_probe.cpp 2>/dev/null
exe=$(python3 build.py _probe plain) ; rm -f checks/_probe.cpp
printf "%b" "$2" > .cache/probe.src
"$exe" "$1" .cache/probe.src $3 $4
