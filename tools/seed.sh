#!/bin/bash
# tools/seed.sh ID [check...]: confirms one planted bug in a scratch copy (/tmp/sw): applies, builds, passes the
# stable tests, demo passes without and fails with it; then runs the checks (default: its property) on it.
ID=$1; shift; S=/verif/seeded/$ID; W=/tmp/sw; D=/tmp/seed-demo
[ -d $W ] || cp -a /repo $W
cd $W && git fetch -q /repo HEAD && git checkout -q --detach FETCH_HEAD && git checkout -q -- . || exit 9
rm -rf /tmp/seed-demo; mkdir -p $D; cp $S/* $D/; rm -f $D/patch.diff $D/meta.json
sed 's#/repo#/tmp/sw#g' /opt/vp/build.sh > /tmp/sw-build.sh; sed 's#/repo#/tmp/sw#g' /opt/vp/test.sh > /tmp/sw-test.sh
if [ -z "$NOBASE" ]; then bash /tmp/sw-build.sh >/tmp/sw-b.log 2>&1 || { echo "BASE BUILD FAILED"; exit 9; }; bash $D/demo.sh >/tmp/sw-d0.log 2>&1 || { echo "DEMO FAILS ON BASE"; cat /tmp/sw-d0.log; exit 8; }; fi
git apply $S/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 7; }
bash /tmp/sw-build.sh >/tmp/sw-b.log 2>&1 || { echo "BUILD FAILED"; tail -30 /tmp/sw-b.log; git checkout -q -- .; exit 6; }
bash /tmp/sw-test.sh /tmp/sw-out.json >/tmp/sw-t.log 2>&1
python3 - <<'P' || { git checkout -q -- .; exit 5; }
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); want=set(b if isinstance(b,list) else b.get('passed') or b.get('stable') or [])
got=set(json.load(open('/tmp/sw-out.json'))['passed']); m=want-got
print('stable tests:',len(want&got),'of',len(want)); sys.exit(1 if m else 0)
P
if bash $D/demo.sh >/tmp/sw-d1.log 2>&1; then echo "DEMO PASSES WITH THE BUG"; git checkout -q -- .; exit 4; else echo "demo fails as it should: $(grep -m1 -i fail /tmp/sw-d1.log)"; fi
CH="$*"; [ -z "$CH" ] && CH=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /verif
for c in $CH; do VF_REPO=$W timeout 900 node run.js check $c quick > /tmp/seed-$ID-$c.log 2>&1; echo "check $c: exit $?: $(grep -E '^#' /tmp/seed-$ID-$c.log | head -1 | cut -c1-300) $(grep VIOLATION /tmp/seed-$ID-$c.log)"; grep '^note: obs' /tmp/seed-$ID-$c.log | head -3; done
git -C $W checkout -q -- .
