#!/bin/bash
# runs the quick check of each planted bug's property against a patched copy
for id in "$@"; do
  rm -rf /tmp/trybug; git clone -q /repo /tmp/trybug
  git -C /tmp/trybug apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  out=$(LCE_REPO=/tmp/trybug python3 /verif/check.py ${CHECK:-$p} quick 2>&1); rc=$?
  echo "$id $p rc=$rc $(echo "$out" | grep -c ^VIOLATION) violations | $(echo "$out" | sed -n 2,3p | tr '\n' ' ' | cut -c1-200)"
done
rm -rf /tmp/trybug
