#!/bin/bash
# Checks that the harness builds offline; every check builds it again from /repo's working tree.
cd "$(dirname "$0")" || exit 2
export VMON_ROOT="$PWD"
. ./env.sh
build_harness "$PWD/target/plain" "" "" || exit 2
build_harness "$PWD/target/hooks" "hooks29 $QUERIES" "--cfg dbml_verif"
