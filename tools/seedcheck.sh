#!/bin/bash
# Development aid (not used by any check): seedcheck.sh ID...
# In a scratch copy of /repo: builds clean, runs demo (must be 0), applies seeded/ID/patch.diff, builds, runs the stable tests
# (must pass) and the demo (must fail). With CHECK=1 also runs the property's check against the changed copy.
T=/tmp/hv-seedtree
if [ ! -d $T ]; then
  cp -a /repo $T; rm -rf $T/_build
  sed "s#/repo#$T#g" /opt/vp/build.sh > $T.build.sh
  sed -e "s#/repo#$T#g" -e "s#/opt/vp/build.sh#$T.build.sh#" /opt/vp/test.sh > $T.test.sh
  (bash $T.build.sh > $T.log 2>&1) || { tail -5 $T.log; exit 1; }
fi
cd $T; git checkout -q -- .; git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
bash $T.build.sh > $T.log 2>&1 || { echo "clean build failed"; tail -5 $T.log; exit 1; }
for id in "$@"; do
  S=/verif/seeded/$id; L=$(mktemp -d /tmp/hv-seedloc-XXXXXX); cp -a $S/. $L; rm -f $L/patch.diff $L/meta.json
  bash $T.build.sh > $T.log 2>&1
  bash $L/demo.sh > $T.demo0 2>&1; a=$?
  git apply $S/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash $T.test.sh $T.json > $T.log 2>&1
  t=$(python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json')).get('stable') or json.load(open('/opt/vp/BASELINE.json')).get('passed'))
r=json.load(open('$T.json')); print('missing:',sorted(b-set(r['passed'])))
P
)
  bash $L/demo.sh > $T.demo1 2>&1; b=$?
  echo "$id: demo clean=$a patched=$b tests $t"; [ $a -ne 0 ] && tail -3 $T.demo0; tail -2 $T.demo1
  if [ -n "$CHECK" ]; then
    for p in $(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])"); do
      (cd /verif; HV_EVIDENCE=$T.ev HV_REPO=$T timeout 900 python3 run.py $p > $T.chk 2>&1; rc=$?; echo "   check $p rc=$rc: $(grep VIOLATION $T.chk | head -1)"
        python3 - <<P
import json,os
f='/verif/tools/seeded_results.json'; d=json.load(open(f)) if os.path.exists(f) else {}
d['$id']={1:'$p',0:'not caught'}.get($rc,'no answer'); json.dump(d,open(f,'w'),indent=1,sort_keys=True)
P
      )
    done
  fi
  git checkout -q -- .; rm -rf $L
done
