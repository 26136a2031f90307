#!/bin/bash
# usage: quiet.sh <patch> ["P01 P02 ..."] : runs checks, in a scratch copy, with a patch that keeps the behaviour; prints those that are not quiet
D=${TRIAL_DIR:-/tmp/quiet}
/verif/tools/scratch.sh $D; cd $D/verif
git -C $D/repo apply "$1" || exit 2
for p in ${2:-$(seq -f 'P%02g' 1 31)}; do
  t=$(date +%s)
  out=$(VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 ./check.sh $p 2>&1); rc=$?
  echo "$p rc=$rc $(( $(date +%s)-t ))s $([ $rc = 0 ] || echo "$out" | head -5 | cut -c1-300)"
done
git -C $D/repo checkout -q -- .
