#!/bin/bash
# usage: check.sh <property id> [harness options]
# Builds the property's harness against /repo's working tree and runs it.
# Exit 0: held. Exit 1 with a VIOLATION line: broken. Anything else: error of the check.
cd "$(dirname "$0")" || exit 3
export LC_ALL=C.UTF-8 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
id=$1
shift
python3 ./build.py "$id" || { echo "build of $id failed" >&2; exit 3; }
exec "${UM2_VERIF_BUILD:-$PWD/build}/$id" --root "$PWD" "$@"
