#!/bin/bash
# trybug.sh id...   run the quick check of each planted bug's property on a scratch copy of /repo with the bug applied
for b in "$@"; do
  d=/verif/seeded/$b; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  w=$(mktemp -d /tmp/try.XXXXXX); git clone -q /repo $w/repo
  git -C $w/repo apply $d/patch.diff || { echo "$b: does not apply"; continue; }
  s=$(date +%s); ATH_REPO=$w/repo bash /verif/run.sh $p quick > /tmp/try_$b.log 2>&1; rc=$?
  rm -rf "$w"
  echo "$b $p rc=$rc $(( $(date +%s) - s ))s $(grep -m1 VIOLATION /tmp/try_$b.log | cut -c1-150)"
done
