#!/bin/bash
# builds the library and the first check once, so that a broken tool chain shows early
cd "$(dirname "$0")" || exit 2
python3 build.py C01 plain >/dev/null
