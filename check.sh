#!/bin/bash
# check.sh <property> [replay-file]: builds the harness against /repo's working
# tree and runs one check, or one replay file of it.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
. ./build.inc
ID=$1
build "$ID" || exit 2
case $ID in
  C15) build_bin wrustatic || exit 2 ;;
  C21) build_bin wrusdummy || exit 2 ;;
  C26) build_bin wrustatic && build_bin wrusdummy || exit 2 ;;
esac
if [ -n "$2" ]; then
  exec "$VH" replay "$2"
fi
exec "$VH" run "$ID"
