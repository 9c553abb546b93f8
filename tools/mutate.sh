#!/bin/bash
# mutate.sh PATCH ID...: applies a patch to /repo, runs the checks, undoes it.
p=$1; shift
git -C /repo apply "$p" || exit 3
trap 'git -C /repo checkout -q -- .' EXIT
for id in "$@"; do echo "== $id"; python3 /verif/check.py $id 2>&1 | tail -${LINES_OUT:-6} | cut -c1-400; done
