#!/bin/bash
# run.sh ID [args]: build the check from /repo's working tree and run it
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT=$PWD LANG=C.UTF-8 LC_ALL=C.UTF-8
id=$1; shift
opts=$(sed -n 's#^// *build: *##p' "checks/$id.cpp" | head -1)
exe=$(python3 build.py "$id" ${VERIF_FLAVOUR:-$opts}) || exit 2
VERIF_SCRATCH=$(mktemp -d /tmp/verif-run-XXXXXX) || exit 2
export VERIF_SCRATCH
"$exe" "$@"
rc=$?
case $VERIF_SCRATCH in /tmp/verif-run-??????) rm -rf "$VERIF_SCRATCH";; esac
exit $rc
