#!/bin/bash
# dev aid: bugtest.sh ID [nocheck] -- confirm a planted bug in a scratch copy of /repo (bind-mounted over /repo in a private mount namespace)
ID=$1; MODE=${2:-check}
D=/verif/seeded/$ID
W=/tmp/bt.$ID
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
rm -rf "/tmp/bt.$ID"; cp -a /repo "$W"
rm -rf "/tmp/bd.$ID"; mkdir "/tmp/bd.$ID"; cp -a "$D/." "/tmp/bd.$ID/"; rm -f "/tmp/bd.$ID/patch.diff" "/tmp/bd.$ID/meta.json"
cat > "$W.sh" <<S
mount --bind $W /repo || exit 9
cd /repo
git checkout -q -- . 
timeout 300 bash /tmp/bd.$ID/demo.sh >$W.d0 2>&1; echo "demo clean rc=\$?"
git apply $D/patch.diff || { echo APPLY-FAILED; exit 1; }
bash /opt/vp/build.sh >$W.b 2>&1 || { echo BUILD-FAILED; tail -20 $W.b; exit 1; }
[ $MODE = quick ] || { bash /opt/vp/test.sh $W.json >$W.t 2>&1; python3 -c "import json;d=json.load(open('$W.json'));print('tests passed',len(d['passed']),'failed',d['failed'][:5])"; }
cd /repo; timeout 300 bash /tmp/bd.$ID/demo.sh >$W.d1 2>&1; echo "demo bug rc=\$?"; tail -3 $W.d1
if [ $MODE != nocheck ]; then cd /verif; NRG_CACHE=$W.cache NRG_EVID=$W.ev python3 checks/$P.py >$W.c 2>&1; rc=\$?; echo "check $P rc=\$rc"; grep -v '^  ' $W.c | tail -4; fi
S
unshare -rm bash "$W.sh" 2>&1 | sed "s/^/[$ID] /"
rm -rf "/tmp/bt.$ID" "/tmp/bd.$ID" "/tmp/bt.$ID.cache"
