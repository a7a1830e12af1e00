#!/bin/bash
# try_seeds.sh [ID...]: apply each planted change to a scratch clone, run its property's check against it
cd /verif; B=${B:-/tmp/wt}
for s in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
  git -C $B checkout -q -- . ; git -C $B fetch -q origin && git -C $B reset -q --hard origin/main
  git -C $B apply /verif/seeded/$s/patch.diff || { echo "$s: does not apply"; continue; }
  out=$(VERIF_REPO=$B VERIF_BUILD=/tmp/vbs python3 check.py $p 2>&1); rc=$?
  echo "$s $p rc=$rc $(echo "$out" | grep -E "rejected|VIOLATION" | head -2 | cut -c1-220 | tr '\n' ' ')"; [ $rc -gt 1 ] && echo "$out" | tail -5
  git -C $B checkout -q -- .
done
