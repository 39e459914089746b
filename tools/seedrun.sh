#!/bin/bash
# seedrun.sh ID... : applies each planted change in a scratch copy and runs its property's check on it
cd /verif
for s in ${@:-$(ls seeded)}; do
  D=$(mktemp -d /tmp/sr.XXXXXX); cp -a /repo/src $D/src; (cd $D && git init -q . 2>/dev/null; git apply /verif/seeded/$s/patch.diff) || echo "APPLY FAILED $s"
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  o=$(VERIF_REPO=$D timeout 900 python3 engine/run.py $p 2>&1); rc=$?
  echo "$s $p rc=$rc $(echo "$o" | grep -c '^VIOLATION') $(echo "$o" | tail -1 | cut -c1-130)"
  rm -rf $D
done
