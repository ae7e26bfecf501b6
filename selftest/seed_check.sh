#!/bin/bash
# seed_check.sh ID [notests]: confirms one planted change in a scratch copy shown at /repo (own user and mount namespace)
id=$1; src=/verif/seeded/$id
w=$(mktemp -d /tmp/seed.XXXXXX)
cp -a /repo $w/repo
cp -a $src $w/s
cat > $w/run.sh <<X
mount --bind $w/repo /repo
cd /repo
bash /opt/vp/build.sh >$w/b0.log 2>&1 || echo BUILD0 FAILED
bash $w/s/demo.sh >$w/d0.log 2>&1; echo "demo unchanged rc=\$?"
git apply $w/s/patch.diff || { echo PATCH FAILED; exit 1; }
bash /opt/vp/build.sh >$w/b1.log 2>&1 || { echo BUILD FAILED; tail -5 $w/b1.log; exit 1; }
bash $w/s/demo.sh >$w/d1.log 2>&1; echo "demo patched rc=\$?"
tail -3 $w/d1.log
if [ -z "$2" ]; then
  bash /opt/vp/test.sh $w/out.json >$w/t.log 2>&1
  python3 - <<Y
import json
b=json.load(open('/opt/vp/BASELINE.json'))
o=json.load(open('$w/out.json'))
s=set(b.get('stable',b.get('passed',b))) if isinstance(b,dict) else set(b)
print('tests passed', len(o['passed']), 'missing', sorted(s-set(o['passed'])))
Y
fi
X
unshare -Urm bash $w/run.sh 2>&1 | sed "s/^/$id: /"
head -c 300 $w/d0.log | sed "s/^/$id d0: /" | head -3
rm -rf "$w"
