#!/bin/bash
# trybugs.sh [id…]: run the check of each seeded bug's property against a patched scratch copy
cd /verif
for d in ${@:-$(ls seeded)}; do
  ( P=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  w=$(mktemp -d /tmp/tb_XXXX); cp -a /repo/lib $w/ ; (cd $w; git init -q . ; git apply --whitespace=nowarn /verif/seeded/$d/patch.diff) || echo "APPLY? $d"
  mkdir -p $w/src; cp -a /repo/src $w/ 2>/dev/null
  out=$(VERIF_REPO=$w VERIF_EVIDENCE=$w/ev python3-vt run.py $P quick 2>&1); rc=$?
  echo "$d $P rc=$rc $(echo "$out" | grep -m1 -E 'VIOLATION|BROKEN' | cut -c1-220)"; rm -rf $w ) &
  while [ $(jobs -r | wc -l) -ge 6 ]; do sleep 0.2; done
done; wait
