#!/bin/bash
# run the check of every planted bug (or the ids given) on a scratch copy of /repo with the bug applied
cd /verif; ids=${*:-$(ls seeded)}
for b in $ids; do
  P=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  W=$(mktemp -d /tmp/sd.XXXXXX); git -C /repo archive HEAD | tar x -C $W; git -C $W init -q; git -C $W apply /verif/seeded/$b/patch.diff || echo "$b PATCH"
  VERIF_REPO=$W timeout 900 python3 run.py $P > $W.log 2>&1; rc=$?
  echo "$b $P rc=$rc $(grep -c '^VIOLATION property='$P $W.log) $(tail -1 $W.log | cut -c1-160)"
  rm -rf "$W" "$W.log"
done
