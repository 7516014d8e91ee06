#!/bin/bash
# developer aid: dump.sh REPO N OUT -- srcML hashes of N generated cases made by the tree REPO (8 processes)
cd "$(dirname "$0")/.." || exit 2
export VERIF_ROOT=$PWD VERIF_REPO=$1
cp tools/dump.cpp checks/_dump.cpp
exe=$(python3 build.py _dump plain); rm -f checks/_dump.cpp
n=$(( $2 / 8 ))
for k in 0 1 2 3 4 5 6 7; do "$exe" $((k*n)) $((k*n+n)) > "$3.$k" 2>/dev/null & done; wait
cat "$3".? > "$3"; rm -f "$3".[0-7]
