#!/bin/bash
# seedtest.sh ID...: demo on the clean tree, then patch, tests, demo, check; undo.
for id in "$@"; do
d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo; git diff --quiet || { echo dirty; exit 1; }
( bash $d/demo.sh >/tmp/demo.clean 2>&1 ); c=$?
git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.test 2>&1; t=$(tail -1 /tmp/seed.test)
( bash $d/demo.sh >/tmp/demo.bug 2>&1 ); b=$?
cd /verif; python3 check.py $prop >/tmp/seed.check 2>&1; k=$?
git -C /repo checkout -- .
echo "$id prop=$prop demo-clean=$c demo-bug=$b tests=[$t] check=$k $(grep -h 'harness h_\|no answer' /tmp/seed.check | head -2 | cut -c1-150 | tr '\n' ' ')"
done
