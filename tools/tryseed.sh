#!/bin/bash
# tryseed.sh ID... : applies each planted bug to /repo, runs its property's check, undoes it
cd /verif
for id in "$@"; do
  p=$(/opt/venv/bin/python -c "import json; print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "NOAPPLY $id"; continue; }
  out=$(timeout 900 /opt/venv/bin/python check.py $p 2>&1); rc=$?
  git -C /repo checkout -- .
  if [ $rc = 1 ] && echo "$out" | grep -q "^VIOLATION property=$p"; then echo "CAUGHT $id $p"; else echo "MISSED $id $p rc=$rc"; echo "$out" | tail -3 | cut -c1-300; fi
  echo "$out" | grep -v "^ *inputs" | sed -n 2,4p | cut -c1-200
done
