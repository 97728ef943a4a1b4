#!/bin/bash
# runseed.sh ID... : applies each planted bug to /repo, runs the check of its property, undoes it
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || continue
  python3 check.py $p > /tmp/runseed.out 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "== $id rc=$rc $(grep -E '^VIOLATION' /tmp/runseed.out)"; grep -E '^(failed obligation|failing input|note)' /tmp/runseed.out | cut -c1-250 | head -8
done
