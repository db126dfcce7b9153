#!/bin/bash
# seedcheck.sh ID...: does the property's check catch the planted bug?
V=${VDIR:-/verif}; cd ${PYGSTI_REPO:-/repo}; [ -z "$(git status --porcelain -uno)" ] || { echo dirty; exit 2; }
for i in "$@"; do
  P=$(python3 -c "import json;print(json.load(open('$V/seeded/$i/meta.json'))['property'])")
  git apply ${VDIR:-/verif}/seeded/$i/patch.diff || continue
  r=$(cd ${VDIR:-/verif} && timeout 900 ./check.py $P 2>&1 | cut -c1-160 | grep -E "VIOLATION|counterexample" | head -1)
  git checkout -q -- .
  echo "$i $P ${r:-MISSED}"
done
