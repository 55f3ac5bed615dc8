#!/bin/bash
# check.sh ID: builds, then decides the property
cd "$(dirname "$0")" || exit 2
export HV_VERIF="$PWD"
bash ./build.sh || { echo "error: the harness does not build"; exit 2; }
ulimit -c 0
if [ "$1" = C20 ]; then exec python3 san.py; fi
ulimit -v 3500000
exec ./target/release/hv check "$1"
