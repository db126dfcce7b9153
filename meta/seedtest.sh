#!/bin/bash
# seedtest.sh ID...: demos before/after each patch in a scratch copy, then the stable tests with all patches together
W=/tmp/seedwt; rm -rf /tmp/seedwt; cp -a ${PYGSTI_REPO:-/repo} $W; cd $W; git checkout -q -- .
for i in "$@"; do
  bash ${VDIR:-/verif}/seeded/$i/demo.sh >/tmp/seed.out 2>&1; a=$?
  git apply ${VDIR:-/verif}/seeded/$i/patch.diff || echo "$i: DOES NOT APPLY"
  timeout 300 bash ${VDIR:-/verif}/seeded/$i/demo.sh >/tmp/seed.out 2>&1; b=$?
  echo "$i clean=$a patched=$b $(tail -1 /tmp/seed.out | cut -c1-150)"
  git checkout -q -- .
done
[ -n "$NOTEST" ] && { rm -rf /tmp/seedwt; exit; }
for i in "$@"; do git apply ${VDIR:-/verif}/seeded/$i/patch.diff || echo "conflict $i"; done
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONPATH=$W
/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=600 --continue-on-collection-errors --tb=short --disable-warnings -n ${NJ:-8} --dist loadfile --no-loadscope-reorder -o 'python_files=test*.py' -o junit_family=xunit2 --junitxml=/tmp/seed.xml --basetemp=/tmp/seedtmp --ignore=test/test_packages/mpi --ignore=test/test_packages/notebooks test/test_packages test/unit >/tmp/seedtest.log 2>&1
python3 /opt/vp/results.py /tmp/seed.json junit:/tmp/seed.xml
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); j=json.load(open('/tmp/seed.json'))
print('stable tests that fail:', sorted(set(b['stable'])-set(j['passed']))[:10])
P
rm -rf /tmp/seedwt /tmp/seedtmp
