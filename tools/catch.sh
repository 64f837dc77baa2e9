#!/bin/bash
# catch.sh ids...: which seeded bugs does their property's check catch
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id NOAPPLY"; continue; }
  out=$(VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 run.py $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo -e "$id\t$p\trc=$rc\t$(echo "$out" | grep -m1 -o 'VIOLATION property=[A-Z0-9]*')\t$(echo "$out" | head -3 | tr '\n' ' ' | cut -c1-160)"
done
