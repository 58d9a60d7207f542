#!/bin/bash
# tryseed.sh ID...: apply each planted change in a scratch clone of /repo and run the check of its property on it
R=/tmp/w/seed/try; rm -rf /tmp/w/seed/try; git clone -q /repo $R
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C $R checkout -q -- . ; git -C $R apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  out=$(cd /verif && SDSL_REPO=$R python3-vt run.py $p 2>&1); rc=$?
  echo "== $id $p rc=$rc"; echo "$out" | tail -${LINES_OUT:-8} | cut -c1-300
done
