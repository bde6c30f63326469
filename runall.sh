#!/bin/bash
# run all (or the named) checks; prints one summary line each
cd "$(dirname "$0")"
tier=${TIER:-quick}
for p in ${@:-$(python3 -c "from rules.registry import RULES;print(*RULES)")}; do
  timeout 900 python3 check.py $p $tier > /tmp/o_$p.txt 2>&1; rc=$?
  echo "rc=$rc $(grep -m1 obligations /tmp/o_$p.txt)"; [ $rc -eq 0 ] || tail -3 /tmp/o_$p.txt | cut -c1-300
done
