#!/bin/bash
# seedtest.sh ID [nocheck]: confirms a planted bug in a scratch copy and runs its property's check against it
ID=$1; S=/verif/seeded/$ID; R=/tmp/rs; V=/tmp/vp2
if [ ! -d $R ]; then cp -a /repo $R; cp -a /opt/vp $V; sed -i "s#/repo#$R#g; s#/opt/vp#$V#g" $V/*.sh; rm -rf $R/_build; fi
cd $R && git checkout -q -- . && git fetch -q /repo HEAD 2>/dev/null && git reset -q --hard FETCH_HEAD
bash $V/build.sh >/tmp/sb.log 2>&1 || { echo "$ID base build failed"; exit 1; }
bash $S/demo.sh >/tmp/demo0.log 2>&1; d0=$?
git apply $S/patch.diff || { echo "$ID patch does not apply"; exit 1; }
bash $V/build.sh >/tmp/sb.log 2>&1 || { echo "$ID build FAILED"; tail -5 /tmp/sb.log; git checkout -q -- .; exit 1; }
bash $V/test.sh /tmp/st.json >/dev/null 2>&1
python3 - <<PY
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; p=set(json.load(open('/tmp/st.json'))['passed'])
m=[x for x in b if x not in p]
print('$ID stable tests lost:',len(m),m[:4])
PY
timeout 300 bash $S/demo.sh >/tmp/demo1.log 2>&1; d1=$?
echo "$ID demo base=$d0 patched=$d1 $( [ $d0 = 0 ] && [ $d1 != 0 ] && echo GOOD || echo BAD)"
if [ "$2" != nocheck ]; then
  P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  cd /verif; VERIF_REPO=$R VERIF_OUT=/tmp/seedout timeout 900 python3-vt check.py ${2:-$P} > /tmp/sc_$ID.log 2>&1; echo "$ID check ${2:-$P} exit $? :: $(grep -c UNDISCHARGED /tmp/sc_$ID.log) undischarged :: $(grep VIOLATION /tmp/sc_$ID.log) :: $(grep -m1 'FAILING INPUT' /tmp/sc_$ID.log | cut -c1-80)"
fi
cd $R && git checkout -q -- .
