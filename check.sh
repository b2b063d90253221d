#!/bin/bash
# bash ./check.sh Cxx [quick|thorough]: decides one property from /repo's current source.
cd "$(dirname "$0")"
. ./env.sh
id=$1
tier=${2:-${VERIF_TIER:-quick}}
build=0
[ -x analyzer/bin/an ] && [ -x analyzer/bin/goyacc ] || build=1
if [ $build = 0 ] && [ -n "$(find analyzer -name '*.go' -newer analyzer/bin/an -print -quit)" ]; then build=1; fi
if [ $build = 1 ]; then
  if ! bash ./setup.sh >&2; then echo "the analyzer does not build" >&2; exit 2; fi
fi
VERIF_DIR="$PWD" exec analyzer/bin/an -property "$id" -tier "$tier"
