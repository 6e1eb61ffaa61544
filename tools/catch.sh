#!/bin/bash
# catch.sh ID... : run the check of each planted change's property against a scratch copy with the change applied
# (development aid: the registered commands always run against /repo)
for ID in "$@"; do
S=$(mktemp -d /tmp/catch.XXXXXX); D=/verif/seeded/$ID
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cp -a /repo "$S/repo"; git -C "$S/repo" apply "$D/patch.diff" || echo "$ID: no apply"
cp -a /verif "$S/verif"
t0=$(date +%s)
(cd "$S/verif" && VF_REPO=$S/repo VERIF_SEED=${VERIF_SEED:-1} timeout 900 python3 check.py ${PROP:-$P} ${TIER:-quick} > "$S/log" 2>&1); rc=$?
echo "$ID $P rc=$rc $(( $(date +%s)-t0 ))s $(grep -m1 '^# ' "$S/log" | cut -c1-300)"
[ $rc = 0 ] || [ $rc = 1 ] || tail -5 "$S/log"
cd /; rm -rf "$S"
done
