#!/bin/bash
# seedtest.sh ID... : in a scratch copy of /repo, confirm a planted change: patch applies, demo passes on the
# clean tree and fails with the patch, stable tests pass with the patch (skip with NOTESTS=1).
for ID in "$@"; do
S=$(mktemp -d /tmp/seed.XXXXXX); D=/verif/seeded/$ID; ok=1
cp -a /repo "$S/repo"; cd "$S/repo" || exit 1
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
mkdir "$S/demo"; cp "$D"/* "$S/demo/"; rm -f "$S/demo/patch.diff" "$S/demo/meta.json"
timeout 300 bash "$S/demo/demo.sh" > "$S/clean.log" 2>&1; c=$?
git apply "$D/patch.diff" || { echo "$ID: patch does not apply"; ok=0; }
timeout 300 bash "$S/demo/demo.sh" > "$S/bad.log" 2>&1; b=$?
[ $c = 0 ] || { echo "$ID: demo fails on clean tree"; tail -15 "$S/clean.log"; ok=0; }
[ $b != 0 ] || { echo "$ID: demo passes with patch"; tail -5 "$S/bad.log"; ok=0; }
if [ -z "$NOTESTS" ] && [ $ok = 1 ]; then
  (flock 9; sed "s#cd /repo#cd $S/repo#" /opt/vp/test.sh > "$S/test.sh"; bash "$S/test.sh" "$S/out.json" > "$S/test.log" 2>&1) 9>/tmp/seedtest.lock
  python3 - "$S/out.json" "$ID" <<'P' || ok=0
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
st=set(b['stable'] if 'stable' in b else b['passed']); miss=sorted(st-set(o['passed']))
if miss: print(sys.argv[2],'TESTS FAIL',miss[:8]); sys.exit(1)
P
fi
[ $ok = 1 ] && echo "$ID: CONFIRMED (clean $c, patched $b)"
cd /; rm -rf "$S"
done
