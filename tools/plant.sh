#!/bin/bash
# plant.sh ID PROP: /repo's working tree holds the bug, seeded/ID holds demo.sh and meta.json (or they are made here).
# Confirms it (demo, stable tests), stores patch.diff, restores /repo, and says whether PROP's check catches it.
id=$1; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo diff --quiet && { echo "no change in /repo"; exit 1; }
git -C /repo diff > $d/patch.diff
rundemo() { local t; t=$(mktemp -d); cp -r $d/. $t/; rm -f $t/patch.diff $t/meta.json; (cd /repo && timeout 300 bash $t/demo.sh) >$t/out 2>&1; local rc=$?; tail -2 $t/out; find $t -delete; return $rc; }
rundemo; with=$?
sh /verif/tools/suite.sh; tests=$?
out=$(sh /verif/check.sh $prop 2>&1); rc=$?
git -C /repo checkout -q -- .
rundemo; without=$?
echo "[$id/$prop] demo with=$with without=$without tests=$tests check rc=$rc $(echo "$out" | grep -c ^VIOLATION) $(echo "$out" | grep -o 'rejected: [A-Za-z]* [A-Za-z]*' | sort | uniq -c | head -3 | tr '\n' ';')"
[ $with -ne 0 ] && [ $without -eq 0 ] && [ $tests -eq 0 ] || { echo "NOT A VALID BUG"; exit 1; }
