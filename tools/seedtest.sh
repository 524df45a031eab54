#!/bin/bash
# seedtest.sh ID [check|all] : confirms a planted bug in a scratch copy of /repo and runs the property's check on it.
V=$(dirname "$(dirname "$(readlink -f "$0")")"); ID=$1; W=/tmp/seed-$ID; D=$V/seeded/$ID
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
mkdir -p $W; cp -a /repo $W/repo
cat $V/seeded/.skip 2>/dev/null
for s in build test; do sed "s#/repo#$W/repo#g; s#/opt/vp/build.sh#$W/build.sh#g" /opt/vp/$s.sh > $W/$s.sh; done
cd $W/repo && bash $W/build.sh > $W/b0.log 2>&1 || { echo "base build failed"; }
mkdir -p $W/demo; cp -r $D/. $W/demo/; rm -f $W/demo/patch.diff $W/demo/meta.json
(cd $W/repo && timeout 300 bash $W/demo/demo.sh > $W/d0.log 2>&1); echo "$ID demo on base: $?"
git -C $W/repo apply $D/patch.diff || { echo "$ID PATCH DOES NOT APPLY"; }
bash $W/build.sh > $W/b1.log 2>&1 || { echo "$ID BUILD FAILED"; tail -5 $W/b1.log; }
bash $W/test.sh $W/o.json > $W/t.log 2>&1; python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('$W/o.json'));m=[x for x in b['stable'] if x not in o['passed']];print('$ID tests lost:',m[:5])"
(cd $W/repo && timeout 300 bash $W/demo/demo.sh > $W/d1.log 2>&1); echo "$ID demo with bug: $?"; tail -2 $W/d1.log
for p in ${2:-$P}; do (cd $V; PBC_REPO=$W/repo VERIF_BUILD=$W/vb timeout 900 python3 run.py $p quick 2>&1 | cut -c1-300 | grep -v "^  fail" | tail -4; echo "$ID check $p exit ${PIPESTATUS[0]}"); done
rm -rf "/tmp/seed-$ID"
