#!/bin/bash
# confirm a planted bug in a private copy bind-mounted over /repo: demo clean/patched, stable tests, its check
ID=$1; MODE=${2:-all}
D=/verif/seeded/$ID
W=$(mktemp -d /tmp/bugXXXXXX)
cp -a /repo "$W/repo"; cp -a /verif "$W/verif"; rm -rf "$W/verif/evidence"
unshare -m bash -c "
mount --bind $W/repo /repo; mount --bind $W/verif /verif; cd /repo
git checkout -q -- .
if [ $MODE = all ]; then bash $D/demo.sh >$W/d0 2>&1; echo \"$ID demo-clean rc=\$?\"; fi
git apply $D/patch.diff || echo \"$ID APPLY FAILED\"
if [ $MODE = all ]; then
bash $D/demo.sh >$W/d1 2>&1; echo \"$ID demo-patched rc=\$?\"; tail -2 $W/d1 | cut -c1-300
bash /opt/vp/build.sh >/dev/null 2>&1 || echo \"$ID BUILD FAILED\"
bash /opt/vp/test.sh $W/o.json >$W/t 2>&1
python3 -c \"
import json
o=json.load(open('$W/o.json'));b=json.load(open('/opt/vp/BASELINE.json'))
m=[t for t in b['stable'] if t not in set(o['passed'])]
print('$ID tests', 'PASS' if not m else 'FAIL %d %s'%(len(m),m[:3]))\"
fi
P=\$(python3 -c \"import json;print(json.load(open('$D/meta.json'))['property'])\")
cd /verif; VERIF_SEED=1 timeout 900 ./check.sh \$P quick >$W/c 2>&1; echo \"$ID check \$P rc=\$? \$(grep -c VIOLATION $W/c) \$(grep -m1 VIOLATION $W/c)\"
"
rm -rf "$W"
