#!/bin/bash
# catch.sh [ids...]: run each seeded bug's property check against a patched scratch copy
cd /verif
ids=${@:-$(ls seeded)}
for id in $ids; do
  d=/tmp/catch.$$; rm -rf "$d"; mkdir -p $d; git -C /repo archive HEAD | tar x -C $d
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  (cd $d && git init -q . 2>/dev/null; git apply /verif/seeded/$id/patch.diff) || echo "APPLY FAILED $id"
  out=$(FVSA_REPO=$d FVSA_EVID=/tmp/catch.$$.ev timeout 900 python3-vt check.py $p 2>&1); rc=$?
  echo "$id $p rc=$rc $(echo "$out" | grep -c '^VIOLATION') $(echo "$out" | grep '  \[' | head -1 | cut -c1-160)"
  rm -rf "/tmp/catch.$$" "/tmp/catch.$$.ev"
done
