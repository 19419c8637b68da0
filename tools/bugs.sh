#!/bin/bash
# check every seeded bug with its own property's check
cd /verif
for d in ${@:-seeded/*}; do p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo apply $PWD/$d/patch.diff || { echo NOAPPLY $d; continue; }
timeout 900 python3-vt check.py $p > /tmp/w/o.txt 2>&1; rc=$?
git -C /repo checkout -q -- .
echo "$d $p rc=$rc $(grep -c VIOLATION /tmp/w/o.txt) $(grep violated /tmp/w/o.txt | head -1 | cut -c1-100)"
done
