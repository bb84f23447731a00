#!/bin/bash
# seedcheck.sh [--notest] ID... : build with the planted bug, run stable tests, the demo and the property's check; undo.
NT=; [ "$1" = --notest ] && { NT=1; shift; }
for id in "$@"; do
D=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
T=$(mktemp -d /tmp/seed-XXXX); cp -r $D $T/d
cd /repo; git diff --quiet || { echo "dirty /repo"; exit 2; }
git apply $D/patch.diff || { echo "$id: patch does not apply"; continue; }
B=ok; bash /opt/vp/build.sh >$T/build.log 2>&1 || B=FAIL
TS=skipped
if [ -z "$NT" ]; then timeout 600 bash /opt/vp/test.sh $T/t.json >/dev/null 2>&1
TS=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'))['stable'];t=json.load(open('$T/t.json'))['passed']
m=[x for x in b if x not in t];print('ok' if not m else m)"); fi
(cd /repo; timeout 300 bash $T/d/demo.sh >$T/demo1.log 2>&1); D1=$?
(cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./run.sh $P >$T/check.log 2>&1); C=$?
git -C /repo checkout -q -- .
bash /opt/vp/build.sh >/dev/null 2>&1
(cd /repo; timeout 300 bash $T/d/demo.sh >$T/demo0.log 2>&1); D0=$?
echo "$id ($P): build=$B tests=$TS demo_bug=$D1 demo_clean=$D0 check_rc=$C $(grep -m1 -A1 VIOLATION $T/check.log | tail -1 | cut -c1-120)"
[ "$D0" = 0 ] || tail -5 $T/demo0.log | cut -c1-300
[ "$D1" = 0 ] && tail -5 $T/demo1.log | cut -c1-300
rm -rf "$T"
done
