#!/bin/bash
# tools/plant.sh ID [check-tier]: confirms the planted bug seeded/ID in a scratch copy and runs
# the check of its property on it (outside /repo)
ID=$1; D=/verif/seeded/$ID; W=/tmp/plant.$ID; rm -rf "/tmp/plant.$ID"
PROP=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cp -a /repo $W
T=$(mktemp -d /tmp/plantd.XXXXXX); cp $D/* $T; rm -f $T/*.diff $T/meta.json
( cd $W && timeout 300 bash $T/demo.sh >/tmp/plant.out 2>&1 ); a=$?
git -C $W apply $D/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
( cd $W && timeout 300 bash $T/demo.sh >/tmp/plant.out2 2>&1 ); b=$?
sed "s#/repo#$W#g" /opt/vp/build.sh > $T/build.sh; bash $T/build.sh >/tmp/plant.build 2>&1; c=$?
sed "s#/repo#$W#g" /opt/vp/test.sh > $T/test.sh; bash $T/test.sh $T/t.json >/dev/null 2>&1
m=$(python3 - $T/t.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
st=set(b.get('stable') or b.get('passed') or b.get('tests'))
ps=set(t.get('passed') or [k for k,v in t.get('tests',{}).items() if v in('passed','pass')])
print(len(st-ps), sorted(st-ps)[:3])
P
)
echo "$ID demo clean=$a patched=$b build=$c missing tests=$m"
cd /verif
t0=$(date +%s)
VC_REPO=$W VERIF_SEED=${SEED:-1} VERIF_EVIDENCE=$T timeout 900 python3-vt check.py $PROP ${2:-quick} > $T/check.log 2>&1; r=$?
echo "$ID $PROP check=$r $(( $(date +%s) - t0 ))s: $(grep -a VIOLATION $T/check.log | tail -1) $(grep -a witness $T/check.log | head -1 | cut -c1-200) $(grep -a refuted $T/check.log | head -2 | cut -c1-160)"
rm -rf "$T" "/tmp/plant.$ID"
