#!/bin/bash
# catch.sh [IDs]: runs each planted change's own check (and its demo is left to vcheck) in a scratch copy
cd /verif
for id in ${@:-$(ls seeded)}; do
  P=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  d=$(mktemp -d /tmp/catch-XXXX)
  cp -a /repo/src /repo/python /repo/generate_defaults.py /repo/pyproject.toml /repo/CMakeLists.txt /repo/*.cfg /repo/*.dat /repo/_build /repo/tests /repo/external /repo/cmake $d/ 2>/dev/null
  (cd $d && git init -q . && git apply /verif/seeded/$id/patch.diff) || echo "$id: does not apply"
  o=$(VERIF_REPO=$d VERIF_OUT=$d python3-vt check.py $P 2>&1); rc=$?
  echo "$id $P rc=$rc $(echo "$o" | grep -m1 VIOLATION | cut -c1-100)"
  rm -rf "$d"
done
