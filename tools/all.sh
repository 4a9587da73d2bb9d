#!/bin/bash
# every registered quick check, one after another; prints failures and times
cd "$(dirname "$0")/.."
for p in $(python3 -c "import sys;sys.path.insert(0,'bin');import plan;print(*sorted(plan.PLAN))"); do
  s=$(date +%s.%N); python3 bin/check.py $p "$@" > .build/all_$p.txt 2>&1; rc=$?
  printf "%s rc=%d %.1fs %s\n" $p $rc $(echo "$(date +%s.%N)-$s"|bc) "$(grep -m1 -E '^rejected|^crash|^ERROR|^OK' .build/all_$p.txt | cut -c1-200)"
done
