#!/bin/bash
# try.sh ID...: runs the check of the planted change's property with the change applied to /repo, then undoes it
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$id does not apply"; continue; }
  s=$(date +%s)
  out=$(cd /verif && timeout 900 ./check.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(( $(date +%s) - s )) s: $(echo "$out" | grep -E "END status|^VIOLATION" | tail -2 | cut -c1-260 | tr '\n' ' ')"
done
