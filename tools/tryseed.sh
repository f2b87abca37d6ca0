#!/bin/bash
# tools/tryseed.sh ID [--notest] : confirm a planted bug in a scratch copy and run its property's quick check against it
ID=$1; S=/verif/seeded/$ID; W=/tmp/pl.$ID
rm -rf "/tmp/pl.$ID"; cp -a /repo "$W"; cd "$W" || exit 9
git checkout -q -- . ; git clean -fdq
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
D=$(mktemp -d); cp -r "$S"/. "$D"; rm -f "$D"/*.diff "$D"/meta.json
bash "$D/demo.sh" >/tmp/demo.$ID.0 2>&1; a=$?
git apply "$S/patch.diff" || { echo "$ID: patch does not apply"; exit 8; }
bash "$D/demo.sh" >/tmp/demo.$ID.1 2>&1; b=$?
rm -rf "$D"
t=skipped
if [ "$2" != --notest ]; then
  sed "s#/repo#$W#g; s#/opt/vp/env.sh#/tmp/env.$ID.sh#" /opt/vp/test.sh > /tmp/test.$ID.sh
  sed "s#/repo#$W#g" /opt/vp/env.sh > /tmp/env.$ID.sh
  bash /tmp/test.$ID.sh /tmp/o.$ID.json >/tmp/testlog.$ID 2>&1
  t=$(python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('/tmp/o.$ID.json'))
print('ok' if not b-set(o['passed']) else sorted(b-set(o['passed'])))
P
)
fi
cd /verif; PHASOR_REPO=$W timeout 900 ./check $prop >/tmp/chk.$ID 2>&1; c=$?
echo "$ID prop=$prop demo0=$a demo1=$b tests=$t check=$c $(grep -m1 VIOLATION /tmp/chk.$ID | cut -c1-120)"
rm -rf "/tmp/pl.$ID"
