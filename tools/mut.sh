#!/bin/bash
# mut.sh file sedexpr check...
f=/repo/include/boost/accumulators/$1; e="$2"; shift 2
sed -i "$e" $f
git -C /repo diff --stat | tail -1; [ -z "$(git -C /repo diff)" ] && echo NOCHANGE
cd /verif; for c in "$@"; do timeout 900 python3-vt check.py $c 2>&1 | cut -c1-220 | grep -v '^    inputs' | tail -${TAIL:-6}; done
git -C /repo checkout -q -- .
