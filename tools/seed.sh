#!/bin/bash
# seed.sh ID...: confirms planted bugs: applies the patch in /repo, builds, runs the stable tests and the demo, runs the
# property's check, and takes the patch out again. Prints one line per bug.
cd /verif || exit 1
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  bash /opt/vp/build.sh > /tmp/seed-build.log 2>&1 || { echo "$id: does not build"; git -C /repo checkout -q -- .; continue; }
  bash /opt/vp/test.sh /tmp/seed-test.json > /tmp/seed-test.log 2>&1
  t=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];r=json.load(open('/tmp/seed-test.json'))
m=[x for x in b if x not in r['passed']];print('tests-ok' if not m else 'TESTS-FAIL '+str(m[:4]))")
  (cd /repo; timeout 300 bash $d/demo.sh > /tmp/seed-demo.log 2>&1); dr=$?
  if [ -z "$NOCHECK" ]; then
    s=$(date +%s)
    VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py ${CHECK:-$prop} > /tmp/seed-check.log 2>&1; cr=$?
    c="check ${CHECK:-$prop}: exit $cr ($(( $(date +%s) - s )) s) $(grep -m1 -B1 '^VIOLATION' /tmp/seed-check.log | head -c 200 | tr '\n' ' ')"
  fi
  git -C /repo checkout -q -- .
  bash /opt/vp/build.sh > /tmp/seed-build.log 2>&1
  (cd /repo; timeout 300 bash $d/demo.sh > /tmp/seed-demo0.log 2>&1); d0=$?
  echo "$id: $t; demo $dr/$d0; $c"
done
