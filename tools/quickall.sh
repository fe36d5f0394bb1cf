#!/bin/bash
# development: all quick checks in turn
cd "$(dirname "$0")/.." || exit 1
for p in ${@:-$(python3 -c "
import json;print(' '.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))")}; do
  s=$(date +%s); python3 check.py $p > out/$p.log 2>&1; rc=$?
  echo "$p rc=$rc $(( $(date +%s)-s )) s $(grep -c 'leaves the spec' out/$p.log) div $(grep -E 'VIOLATION|NO ANSWER' out/$p.log | head -1 | cut -c1-200)"
done
