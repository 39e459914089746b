#!/bin/bash
# tools/prof.sh PROP HARNESS SECONDS : stack samples of a long-running exploration (own processes only)
cd /verif; SYMX_ONLY=$2 VERIF_BUDGET=2000 SYMX_KEEP=1 timeout $(( $3 + 60 )) python3 engine/run.py $1 & R=$!
sleep $3
for p in $(pgrep -f "build/$1-.*/symbolic"); do echo "== $p"; timeout 20 gdb -p $p -batch -ex bt 2>/dev/null | grep '^#' | sed -E 's/std::__cxx11::basic_string<[^>]*> *>? *>?//g' | cut -c1-150 | grep -v libz3 | head -${4:-12}; done
pkill -f "build/$1-.*/symbolic"; kill $R 2>/dev/null; rm -rf /verif/build/$1-*
