#!/bin/bash
# mut.sh FILE SED-EXPR CHECK...: try a textual mutation of the repo against checks, then undo it
R=${PYGSTI_REPO:-/repo}; V=$(cd "$(dirname "$0")"; pwd)
F=$1; E=$2; shift 2
cd $R && [ -z "$(git status --porcelain -uno)" ] || { echo "repo dirty"; exit 2; }
sed -i -E "$E" "$F"; git diff --stat | tail -1
[ -z "$(git diff)" ] && { echo "NO CHANGE"; exit 2; }
for c in "$@"; do (cd $V && ./check.py $c 2>&1 | cut -c1-200 | grep -E "VIOLATION|INCONCL|counterexample|quick:" | head -4); done
git checkout -q -- .
