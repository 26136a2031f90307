#!/bin/bash
# usage: trial.sh "<bug ids or patch files>" "<properties, or own, or all>" : runs checks against planted bugs, in a scratch copy
D=${TRIAL_DIR:-/tmp/trial}
bugs=${1:-$(ls /verif/seeded)}; props=${2:-own}
/verif/tools/scratch.sh $D; cd $D/verif
for b in $bugs; do
  f=/verif/seeded/$b/patch.diff own=
  [ -f "$b" ] && f=$b || own=$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")
  case $props in own) ps=$own;; all) ps=$(seq -f 'P%02g' 1 31);; *) ps=$props;; esac
  git -C $D/repo apply "$f" || { echo "$b does not apply"; continue; }
  for p in $ps; do
    t=$(date +%s)
    out=$(VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check.sh $p 2>&1); rc=$?
    echo "$(basename $b) $p rc=$rc $(( $(date +%s)-t ))s $(echo "$out" | grep -m1 "^VIOLATION") | $(echo "$out" | grep -v '^VIOLATION' | tail -1 | cut -c1-150)"
  done
  git -C $D/repo checkout -q -- .
done
