#!/bin/bash
# runs the given checks (all when none given) and prints time and verdict
cd /verif
P=${@:-$(ls harness/*.cpp | xargs -n1 basename | cut -c1-3 | sort -u)}
for p in $P; do s=$(date +%s); timeout 900 python3 engine/run.py $p > /tmp/run_$p.log 2>&1; rc=$?; e=$(date +%s); echo "$p rc=$rc $((e-s))s $(tail -1 /tmp/run_$p.log | cut -c1-150)"; done
