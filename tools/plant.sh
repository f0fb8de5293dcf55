#!/bin/bash
# plant.sh ID [notests]: tries seeded/ID in a scratch copy: demo without and
# with the patch, the stable tests, the property's check.
HERE=$(dirname "$(dirname "$(readlink -f "$0")")"); ID=$1; D=$HERE/seeded/$ID 
W=/tmp/plant.$ID; L=/tmp/plant.logs; mkdir -p $L
rm -rf "/tmp/plant.$ID"; cp -a ${PLANT_REPO:-/repo} "$W"; rm -rf "/tmp/plant.$ID/.git"; cd "$W"
P=$(/opt/venv/bin/python -c "import json;print(json.load(open('$D/meta.json'))['property'])")
bash $D/demo.sh >$L/$ID.demo0 2>&1; r0=$?
git apply $D/patch.diff 2>/dev/null || patch -s -p1 <$D/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
bash $D/demo.sh >$L/$ID.demo1 2>&1; r1=$?
t=skipped
if [ "$2" != notests ]; then
  t=$(bash $HERE/tools/tests.sh $W $ID)
fi
cd $HERE; s=$(date +%s)
VC_REPO=$W /opt/venv/bin/python check.py $P quick >$L/$ID.check 2>&1; rc=$?
e=$(date +%s)
echo "$ID ($P): demo $r0/$r1 tests $t check rc=$rc $((e-s))s :: $(grep -m1 -A0 'fails:' $L/$ID.check | cut -c1-150)"
rm -rf "/tmp/plant.$ID"
