#!/bin/bash
# runall.sh [ids]: the quick checks of all the properties one after another
cd "$(dirname "$0")"
IDS=${*:-$(python3 -c 'from table import CHECKS; print(*sorted(CHECKS))')}
for i in $IDS; do
  s=$(date +%s); o=$(python3 check.py $i quick 2>&1); rc=$?
  echo "$i rc=$rc $(( $(date +%s)-s ))s $(echo "$o" | grep -c '^VIOLATION')"
  [ $rc = 0 ] || echo "$o" | tail -60
done
