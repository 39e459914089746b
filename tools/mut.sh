#!/bin/bash
# tools/mut.sh PROP FILE 's/..sed../' : runs the check of PROP against a copy of /repo with the sed edit applied to src/FILE
set -e
D=$(mktemp -d /tmp/mut.XXXXXX)
mkdir $D/src; cp /repo/src/* $D/src/
sed -i -E "$3" $D/src/$2
if diff -q /repo/src/$2 $D/src/$2 >/dev/null; then echo "NO CHANGE"; rm -rf $D; exit 3; fi
diff /repo/src/$2 $D/src/$2 | head -6 || true
VERIF_REPO=$D python3 /verif/engine/run.py $1 | cut -c1-300 || true
rm -rf $D
