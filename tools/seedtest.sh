#!/bin/bash
# tools/seedtest.sh ID [PROPERTY...]: in a private mount namespace, on a copy of /repo: the demo on the clean tree, the patch,
# the stable tests, the demo again, and the checks (default: the property of meta.json)
ID=$1; shift
D=$(mktemp -d /tmp/seedtest.XXXXXX)
cp -a /repo "$D/repo"; cp -a /verif/seeded/$ID "$D/s"
PROPS="$*"; [ -z "$PROPS" ] && PROPS=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$D/s/meta.json")
export D ID PROPS SKIP
unshare -rm bash -c '
mount --bind "$D/repo" /repo; cd /repo
git -C /repo checkout -q -- . 2>/dev/null
P=$D/s/patch.diff; mv $P $D/p.diff
bash /opt/vp/build.sh > $D/b.log 2>&1 || { echo "$ID: clean build failed"; exit 1; }
(cd /repo && timeout 300 bash $D/s/demo.sh > $D/demo0.log 2>&1); a=$?
git -C /repo apply --check $D/p.diff || { echo "$ID: does not apply"; exit 1; }
git -C /repo apply $D/p.diff
t=skipped
if [ -z "$SKIP" ]; then bash /opt/vp/test.sh $D/out.json > $D/t.log 2>&1
t=$(python3 -c "
import json,sys
b=set(json.load(open(\"/opt/vp/BASELINE.json\"))[\"stable\"]); o=set(json.load(open(sys.argv[1]))[\"passed\"])
m=sorted(b-o); print(\"PASS\" if not m else \"FAIL %d %s\" % (len(m), m[:3]))" $D/out.json)
else bash /opt/vp/build.sh > $D/b.log 2>&1 || { echo "$ID: patched build failed"; tail -5 $D/b.log; exit 1; }; fi
(cd /repo && timeout 300 bash $D/s/demo.sh > $D/demo1.log 2>&1); b=$?
echo "$ID: demo clean=$a patched=$b tests=$t"
[ $a != 0 ] && tail -5 $D/demo0.log
cp -a /verif $D/verif 2>/dev/null; rm -rf $D/verif/seeded $D/verif/.cache
for p in $PROPS; do (cd $D/verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 node check.js $p quick > $D/c.log 2>&1); c=$?
echo "   $p -> $c $(grep -m1 -A1 ^VIOLATION $D/c.log | tail -1 | cut -c1-160)$( [ $c != 1 ] && tail -2 $D/c.log | cut -c1-300 )"; done
'
rm -rf "$D"
