#!/bin/bash
# usage: tools/revert_check.sh PROPERTY COMMIT...   does the check report each fix when undone?
# Run on a scratch copy of /repo (DS_REPO); /repo itself is not touched.
p=$1; shift
for c in "$@"; do
  d=/tmp/dsim-revert-$$
  mkdir -p $d && cp -a /repo $d/ && git -C $d/repo revert --no-commit $c 2>&1 | tail -1
  DS_REPO=$d/repo "$(dirname "$0")/../bin/check" $p > $d/out; rc=$?
  echo "$p $c rc=$rc $(grep -m1 -o 'VIOLATION.*' $d/out) $(head -1 $d/out | cut -c1-200)"
  rm -rf "$d"
done
