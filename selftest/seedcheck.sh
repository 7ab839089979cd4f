#!/bin/bash
# Development aid: which checks report which planted bug (applied to a scratch copy). usage: seedcheck.sh [substring]
v=$(cd "$(dirname "$0")/.." && pwd)
d=/tmp/vp-seedcheck; mkdir -p $d/work $d/ev
for s in "$v"/seeded/*${1:-}*/; do
  id=$(basename $s); p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  rm -rf /tmp/vp-seedcheck/repo; git clone -q /repo $d/repo; cp /repo/Cargo.lock $d/repo/ 2>/dev/null
  git -C $d/repo apply "$s/patch.diff" || { echo "$id does not apply"; continue; }
  VP_REPO=$d/repo VP_WORK=$d/work VP_EVIDENCE=$d/ev python3 "$v/check.py" $p > $d/out 2>&1; rc=$?
  echo "$id $p exit $rc $(grep -m1 '  \[' $d/out | cut -c1-150)"
done
