#!/bin/bash
# trybugs.sh ID... : applies each planted bug to /repo, runs its property's
# quick check (and any extra properties in $ALSO), and undoes it.
cd /verif || exit 1
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply "$d/patch.diff" || { echo "$id does not apply"; continue; }
  for q in $p $ALSO; do
    s=$(date +%s)
    ./check.sh "$q" quick > /tmp/trybugs.out 2>&1
    rc=$?
    echo "$id $q exit $rc $(( $(date +%s) - s ))s: $(grep -m1 -E 'VIOLATION' /tmp/trybugs.out | cut -c1-120) $(grep -m1 -iE '^ *(class|detail)' /tmp/trybugs.out | cut -c1-150)"
  done
  git -C /repo checkout -- .
done
