#!/bin/bash
# seedcheck.sh ID [CHECK...]: applies the planted bug to /repo, runs the checks (its own property's by default), undoes it.
id=$1; shift
s=/verif/seeded/$id
[ $# = 0 ] && set -- $(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
git apply "$s/patch.diff" || exit 1
for c in "$@"; do
  (cd /verif && python3 run.py "$c" >/tmp/f/sc-$id-$c.log 2>&1; r=$?; echo "$id: check $c exit $r in $(tail -n1 /tmp/f/sc-$id-$c.log | cut -c1-9): $(grep -m1 '^# ' /tmp/f/sc-$id-$c.log | cut -c1-300)")
done
git checkout -q -- .
