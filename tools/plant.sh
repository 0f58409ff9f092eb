#!/bin/bash
# plant.sh ID [nocheck]: confirm a planted bug in a private copy of /repo (mount namespace), then run its property's check on it.
ID=$1; D=/verif/seeded/$ID; S=/tmp/seedrepo
[ -d $S ] || cp -a /repo $S
cat > /tmp/plant_in.sh <<E2
mount --bind $S /repo
cd /repo && git checkout -q -- . && git fetch -q /verif/../repo 2>/dev/null
bash /opt/vp/build.sh >/tmp/plant.log 2>&1 || { echo "clean build failed"; exit 1; }
rm -rf /tmp/pd && cp -a $D /tmp/pd && rm -f /tmp/pd/patch.diff /tmp/pd/meta.json
timeout 300 bash /tmp/pd/demo.sh >/tmp/plant.demo0 2>&1; a=\$?
git apply $D/patch.diff || { echo "patch does not apply"; exit 1; }
bash /opt/vp/test.sh /tmp/plant.json >>/tmp/plant.log 2>&1
bash /opt/vp/build.sh >>/tmp/plant.log 2>&1 || { echo "patched build failed"; tail -20 /tmp/plant.log; git checkout -q -- .; exit 1; }
t=\$(python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);o=json.load(open('/tmp/plant.json'))
print('ok' if b<=set(o['passed']) else 'FAIL '+str(sorted(b-set(o['passed']))))")
timeout 300 bash /tmp/pd/demo.sh >/tmp/plant.demo1 2>&1; b=\$?
echo "$ID demo-clean=\$a demo-bug=\$b tests=\$t"
[ \$a = 0 ] || tail -5 /tmp/plant.demo0
[ \$b != 0 ] || tail -5 /tmp/plant.demo1
if [ "$2" != nocheck ]; then
  p=\$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  cd /verif && timeout 900 python3-vt engine/check.py \$p > /tmp/plant.check.$ID 2>&1; echo "  check \$p exit \$?: \$(grep -E 'VIOLATION|failed obligation|all obligations' /tmp/plant.check.$ID | tail -3 | cut -c1-260)"
fi
cd /repo && git checkout -q -- .
E2
unshare -m bash /tmp/plant_in.sh
