#!/bin/bash
# usage: scratch.sh <dir> : copies /repo and the machinery to <dir>/repo and <dir>/verif, to try changes without touching /repo
d=$1; mkdir -p $d/verif/evidence $d/verif/replays
[ -d $d/repo ] || cp -a /repo $d/repo
git -C $d/repo checkout -q -- . && git -C $d/repo pull -q /repo main 2>/dev/null; [ "$(git -C $d/repo rev-parse HEAD)" = "$(git -C /repo rev-parse HEAD)" ] || { echo "cannot update $d/repo" >&2; exit 1; }
cd /verif && /bin/rm -rf $d/verif/harness && cp -a check.sh env.sh p31.sh setup.sh harness corpus known_findings.txt MANIFEST.json properties.jsonl $d/verif/
sed -i "s#/repo#$d/repo#g" $d/verif/harness/Cargo.toml $d/verif/p31.sh $d/verif/check.sh
