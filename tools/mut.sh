#!/bin/bash
# Development aid (not used by any check): run checks against a changed scratch copy of /repo.
# mut.sh (PATCH | -R COMMIT | -s 's/old/new/' FILE) PROPERTY...
set -e
D=$(mktemp -d /tmp/hv-mut-XXXXXX)
trap 'rm -rf "$D"' EXIT
git -C /repo archive HEAD | tar x -C "$D"
cd "$D" && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x
case $1 in
  -R) git -C /repo diff $2 $2~1 | git apply --3way - ; shift 2;;
  -s) sed -i "$2" "$3"; git diff --stat | tail -1; shift 3;;
  *) git apply "$1"; shift;;
esac
cd /verif
for p in "$@"; do HV_REPO=$D HV_EVIDENCE=$D/ev timeout 900 python3 run.py $p 2>&1 | grep -v "^\[" | tail -6; done
