#!/bin/bash
# seedtest.sh ID [CHECK]: confirms a seeded change (demo 0 without, builds, tests pass, demo nonzero with) and runs the check of its property.
S=/verif/seeded/$1; [ -d $S ] || exit 9
P=${2:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
T=$(mktemp -d); cp $S/* $T; rm -f $T/patch.diff $T/meta.json
cd /repo
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 8; }
bash $T/demo.sh > /tmp/seed-demo0.log 2>&1; r0=$?
git apply $S/patch.diff || { echo "no apply"; exit 7; }
if [ -z "$NOTEST" ]; then /tmp/vtest.sh; else echo "(tests skipped)"; fi
bash $T/demo.sh > /tmp/seed-demo1.log 2>&1; r1=$?
echo "$1: demo clean=$r0 patched=$r1 ($(tail -1 /tmp/seed-demo1.log | cut -c1-120))"
cd /verif; for p in $P; do python3 check.py $p > /tmp/seed-ck.log 2>&1; echo "$1: check $p rc=$? $(grep -a -m1 ^VIOLATION /tmp/seed-ck.log)"; grep -a "^  \[" /tmp/seed-ck.log | head -2 | cut -c1-300; done
git -C /repo checkout -q -- .
rm -rf "$T"
