#!/bin/bash
# refrun.sh "MODES" "PROPS": rewrite a private copy of /repo with tools/refactor.py and run the checks on it
MODES=$1; PROPS=$2; V=$(cd "$(dirname "$0")/.." && pwd)
W=$(mktemp -d /tmp/refXXXXXX)
cp -a /repo "$W/repo"; cp -a "$V" "$W/verif"; rm -rf "$W/verif/evidence"
unshare -m bash -c "
mount --bind $W/repo /repo; mount --bind $W/verif /verif; cd /verif
/opt/venv/bin/python tools/refactor.py $MODES
if [ \"\$TESTS\" = 1 ]; then bash /opt/vp/test.sh $W/o.json >$W/t 2>&1; python3 -c \"
import json
o=json.load(open('$W/o.json'));b=json.load(open('/opt/vp/BASELINE.json'))
m=[t for t in b['stable'] if t not in set(o['passed'])]
print('$MODES tests', 'PASS' if not m else 'FAIL %d %s'%(len(m),m[:6]))\"; fi
for p in $PROPS; do VERIF_SEED=1 timeout 900 ./check.sh \$p quick >$W/c 2>&1; echo \"[$MODES] \$p rc=\$? \$(grep -E 'obligation failed|error|Error' $W/c | head -3 | cut -c1-220) | \$(tail -1 $W/c | cut -c1-160)\"; done
"
rm -rf "$W"
