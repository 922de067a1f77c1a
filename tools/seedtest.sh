#!/bin/bash
# seedtest.sh ID...: applies the planted bug to /repo, builds, runs the tests and both demos, and undoes it.
for id in "$@"; do
  s=/verif/seeded/$id
  cd /repo || exit 1
  [ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
  bash "$s/demo.sh" >/tmp/f/seed-$id-clean.log 2>&1; c=$?
  git apply "$s/patch.diff" || { echo "$id: does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/f/seed-$id-build.log 2>&1; b=$?
  bash "$s/demo.sh" >/tmp/f/seed-$id-bug.log 2>&1; p=$?
  t=skipped
  if [ -z "$NOTEST" ]; then
    bash /opt/vp/test.sh /tmp/f/seed-$id.json >/tmp/f/seed-$id-test.log 2>&1
    t=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); b=b.get('passed', b.get('stable', b)) if isinstance(b, dict) else b
o=json.load(open('/tmp/f/seed-$id.json'))
m=sorted(set(b)-set(o['passed']))
print('tests pass' if not m else f'{len(m)} TESTS FAIL: {m[:4]}')
P
)
  fi
  git checkout -q -- .
  echo "$id: clean demo $c (want 0), build $b, bug demo $p (want nonzero, not 99), $t"
done
