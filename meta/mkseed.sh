#!/bin/bash
# mkseed.sh ID PROPERTY: the modified tree is the scratch copy /tmp/seedwt, /verif/seeded/ID/demo.c exists.
# Makes patch.diff, confirms the demonstration, the build and the stable tests, and runs the property's check on the patched copy.
set -e; id=$1; D=/verif/seeded/$id; W=${W:-/tmp/seedwt}
if [ "$3" != recheck ]; then git -C $W diff > $D/patch.diff; fi; [ -s $D/patch.diff ] || { echo empty patch; exit 1; }
[ -f $D/demo.sh ] || cp /verif/meta/demo.sh $D/demo.sh; chmod +x $D/demo.sh
git -C $W checkout -q -- .; (cd $W && bash $D/demo.sh >/tmp/so1 2>&1) && echo "clean demo: ok" || { echo "clean demo FAILS"; tail -5 /tmp/so1; exit 1; }
git -C $W apply $D/patch.diff; (cd $W && bash $D/demo.sh >/tmp/so2 2>&1) && { echo "patched demo PASSES (bad)"; git -C $W checkout -q -- .; exit 1; } || { echo -n "patched demo fails: "; tail -1 /tmp/so2 | cut -c1-160; }
if [ -z "$NOSTABLE" ]; then git -C /repo apply $D/patch.diff; bash /opt/vp/test.sh /tmp/seedt.json >/tmp/seedb.log 2>&1 || true; git -C /repo checkout -q -- .
python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=json.load(open('/tmp/seedt.json')); p=set(t['passed']); print('stable tests:', 'ok' if b<=p else 'MISSING %s'%(b-p))"
fi
cd /verif; SX_REPO=$W timeout 900 python3 check.py $2 | grep -E "VIOLATION|wall|case |INCON|ERROR" | head -6; git -C $W checkout -q -- .
