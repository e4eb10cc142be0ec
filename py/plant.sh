#!/bin/bash
# plant.sh <id> : validates /verif/seeded/<id> against /repo: applies, builds, stable tests, demo before/after, and its check.
id=$1; d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 1; }
bash /opt/vp/build.sh >/tmp/plant.build 2>&1 || { echo "clean build failed"; exit 1; }
bash $d/demo.sh >/tmp/plant.demo0 2>&1; r0=$?
git apply $d/patch.diff || exit 1
bash /opt/vp/build.sh >/tmp/plant.build 2>&1 || echo "PATCHED BUILD FAILED"
bash /opt/vp/test.sh /tmp/plant.json >/dev/null 2>&1
t=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=json.load(open('/tmp/plant.json'));p=o['passed'];print('tests ok' if all(x in p for x in b) else 'TESTS FAIL')")
bash $d/demo.sh >/tmp/plant.demo1 2>&1; r1=$?
cd /verif; VERIF_SEED=1 python3 run.py check $prop >/tmp/plant.check 2>&1; rc=$?
git -C /repo checkout -- .
echo "$id $prop: demo clean=$r0 patched=$r1 $t check=$rc $(grep -c VIOLATION /tmp/plant.check) $(tail -3 /tmp/plant.check | head -2 | tr '\n' ' ' | cut -c1-200)"
