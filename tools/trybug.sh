#!/bin/bash
# trybug.sh <id> [PROP...]: demo on clean, demo with the patch, then the given checks with the patch applied to /repo
d=/verif/seeded/$1; id=$1; shift
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo dirty"; exit 1; }
cd /repo; bash $d/demo.sh; echo "demo clean rc=$?"
git -C /repo apply $d/patch.diff || exit 1
bash $d/demo.sh > /tmp/demo.out 2>&1; echo "demo patched rc=$?"; tail -2 /tmp/demo.out
for p in "$@"; do bash /verif/run.sh $p quick > /tmp/check.$p.out 2>&1; echo "$p rc=$? $(grep -m1 VIOLATION /tmp/check.$p.out)"; done
git -C /repo checkout -q -- .
