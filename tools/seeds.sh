#!/bin/bash
# seeds.sh [ID...]: runs the check of each planted bug on a scratch copy.
cd /verif/seeded; ids=${@:-$(ls)}
for id in $ids; do
  C=/tmp/seedrun/$id; mkdir -p /tmp/seedrun; [ -e $C ] && find $C -delete
  git clone -q /repo $C && git -C $C apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  ${CK:-/verif/bin/ck} -repo $C -p $p -out /tmp/seedrun/ev > /tmp/seedrun/log 2>&1
  rc=$?
  echo "$id $p rc=$rc $(grep -m1 '^  [a-z]' /tmp/seedrun/log | cut -c1-110)"
  find $C -delete
done
