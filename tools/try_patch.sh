#!/bin/bash
# try_patch.sh PATCH PROP...: runs checks with PATCH applied to /repo, and undoes it
p=$(realpath "$1"); shift
git -C /repo apply "$p" || { echo "does not apply"; exit 3; }
trap 'git -C /repo checkout -- .' EXIT
for id in "$@"; do
  out=$(python3 /verif/check.py $id 2>&1); rc=$?
  echo "== $id rc=$rc"; echo "$out" | grep -vE "^note" | tail -${LINES_SHOWN:-6} | cut -c1-300
done
