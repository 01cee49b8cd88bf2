#!/bin/bash
# tools_seed.sh ID PROPERTY : take /repo's uncommitted change as seeded/ID/patch.diff, run build, tests, demo with and without it, then undo.
id=$1
d=/verif/seeded/$id
mkdir -p $d
git -C /repo diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no change"; exit 1; }
bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1 || { echo "BUILD FAILS"; git -C /repo checkout -- .; exit 1; }
cd /repo; bash $d/demo.sh >/tmp/seed_demo1.log 2>&1; rc1=$?
[ -z "$NOTEST" ] && { bash /opt/vp/test.sh /tmp/seed_tests.json >/tmp/seed_test.log 2>&1; python3 - <<'P'
import json
r=json.load(open('/tmp/seed_tests.json')); b=json.load(open('/opt/vp/BASELINE.json'))
print("result keys", list(r)[:6] if isinstance(r,dict) else type(r))
def names(x): return set(x if isinstance(x,list) else x.get('stable',x.get('passed',[])))
fails=sorted(names(b)-names(r))
print("baseline",len(names(b)),"failing stable tests:",fails[:8])
P
}
if [ -n "$PROPS" ]; then for p in $PROPS; do (cd /verif; ./run.sh $p quick | tail -4 | cut -c1-300; echo "exit ${PIPESTATUS[0]}"); done; fi
git -C /repo checkout -- .
bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1
bash $d/demo.sh >/tmp/seed_demo0.log 2>&1; rc0=$?
echo "demo: with patch $rc1 (want nonzero), without $rc0 (want 0)"
