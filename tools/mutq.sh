#!/bin/bash
# Development aid: mutq.sh 's/old/new/' FILE PROPERTY...   (one summary line per property)
D=$(mktemp -d /tmp/hv-mut-XXXXXX)
git -C /repo archive HEAD | tar x -C "$D"
before=$(md5sum < "$D/$2"); sed -i "$1" "$D/$2"
[ "$before" == "$(md5sum < "$D/$2")" ] && echo "NO CHANGE $1"
f=$2; m=$1; shift 2
cd /verif
for p in "$@"; do HV_REPO=$D timeout 900 python3 run.py $p > $D/out 2>&1; rc=$?; echo "rc=$rc $p $f $m :: $(grep -v '^\[\|VIOLATION' $D/out | grep -c 'not reproduced') unreproduced; $(grep -v '^\[' $D/out | grep "case\|NO ANS\|error" | head -2 | tr '\n' '|')"; done
rm -rf "$D"
