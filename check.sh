#!/bin/bash
# Builds the harness against /repo's working tree and runs one check: ./check.sh P03
# (only the checks of the semantic index need the hooks of /repo).
cd "$(dirname "$0")" || exit 2
export VMON_ROOT="$PWD"
. ./env.sh
[ "$1" = P31 ] && exec ./p31.sh
case "$1" in
  P28) T="$PWD/target/hooks" F=hooks C="--cfg dbml_verif" ;;
  P29) T="$PWD/target/hooks" F="hooks29 $QUERIES" C="--cfg dbml_verif" ;;
  *) T="$PWD/target/plain" F="" C="" ;;
esac
if [ "$1" = P29 ] && ! build_harness "$T" "$F" "$C" 2>/dev/null; then
  # the signature of some query has changed: watch those that can still be asked
  F=hooks29
  for q in $QUERIES; do build_harness "$T" "hooks29 $q" "$C" 2>/dev/null && F="$F $q"; done
  echo "note: P29 watches: $F" >&2
fi
build_harness "$T" "$F" "$C" || { echo "ERROR: the harness does not build against /repo" >&2; exit 2; }
exec "$T/release/vmon" "$@"
