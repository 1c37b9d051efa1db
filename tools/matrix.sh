#!/bin/bash
# tools/matrix.sh [ID...]: applies each planted bug to /repo, runs the quick check of its property (or $CHECKS), undoes it.
cd /verif
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
for id in ${@:-$(ls seeded)}; do
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  for p in ${CHECKS:-$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")}; do
    t=$(date +%s); python3 run.py $p quick > /tmp/matrix.log 2>&1; c=$?
    v=$(grep -c "^VIOLATION property=$p" /tmp/matrix.log)
    echo "$id $p exit=$c violations=$v $(( $(date +%s) - t ))s $(grep -m1 '^  ' /tmp/matrix.log | cut -c1-150) $(grep -m1 INCONCL /tmp/matrix.log)"
  done
  git -C /repo checkout -q -- .
done
