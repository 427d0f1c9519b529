#!/bin/bash
# Builds the harness from the committed files and /repo's working tree.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
. ./build.inc
build setup
