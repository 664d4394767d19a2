#!/bin/bash
# against.sh PATCH CHECK...: applies a patch to /repo, runs checks, undoes it.
P=$1; shift
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 3; }
git -C /repo apply "$P" || exit 3
trap 'git -C /repo checkout -q -- .' EXIT
for c in "$@"; do
  o=$("$(dirname "$0")/../check.py" $c quick 2>&1); r=$?
  echo "$c exit=$r $(echo "$o" | grep -A1 -m1 VIOLATION | tr '\n' ' ' | cut -c1-260) $(echo "$o" | grep -m1 ERROR -A3| cut -c1-300)"
done
