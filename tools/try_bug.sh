#!/bin/bash
# try_bug.sh ID [nocheck|notest]: verifies seeded/ID on a private copy of /repo mounted over /repo in a mount namespace of its own.
ID=$1; MODE=$2
D=/verif/seeded/$ID
W=$(mktemp -d /tmp/bug-XXXX)
cp -a /repo $W/repo
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
unshare -Urm bash -c "
mount --bind $W/repo /repo && cd /repo || exit 9
git checkout -q -- . 
bash $D/demo.sh > $W/d0 2>&1 && echo 'demo clean ok' || { echo DEMO-FAILS-ON-CLEAN; tail -3 $W/d0; }
git apply $D/patch.diff || { echo PATCH-BAD; exit 1; }
if [ '$MODE' != notest ]; then
  bash /opt/vp/test.sh $W/out.json > $W/t 2>&1
  /opt/venv/bin/python - <<PY
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('$W/out.json'))
k=[x for x in o if isinstance(o[x],list)]
p=set(o.get('passed') or [])
print('stable missing:', sorted(b-p)[:5], len(b-p))
PY
fi
[ '$MODE' = notest ] && grep -q csrc $D/patch.diff && bash /opt/vp/build.sh > $W/t 2>&1
bash $D/demo.sh > $W/d1 2>&1 && echo DEMO-PASSES-WITH-BUG || { echo 'demo fails with bug ok:'; tail -1 $W/d1; }
cd /verif
[ '$MODE' = nocheck ] || VERIF_SEED=1 /opt/venv/bin/python run.py $P 2>&1 | tail -3
"
rm -rf "$W"
