#!/bin/bash
# catch.sh [IDS]: apply each planted bug to a scratch copy of /repo and run the check of its property
for s in ${*:-$(ls /verif/seeded)}; do
  c=$(mktemp -d /tmp/catch.XXXXXX); cp -a /repo/. $c/; git -C $c apply /verif/seeded/$s/patch.diff || { echo "$s does not apply"; rm -rf $c; continue; }
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
  t=$(date +%s); o=$(VERIF_REPO=$c timeout 900 python3 /verif/check.py $p 2>&1); rc=$?
  echo "$s $p rc=$rc $(($(date +%s)-t))s $(echo "$o" | grep -E '^VIOLATION|undecided' | tail -1 | cut -c1-150)"
  rm -rf $c
done
