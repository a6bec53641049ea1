#!/bin/bash
# bugtest.sh ID [PROPERTY...]: tests, demonstration and checks with a planted bug applied to /repo
id=$1; shift
D=/verif/seeded/$id
P=${*:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
cd /repo && git diff --quiet || { echo "dirty /repo"; exit 9; }
bash $D/demo.sh >/tmp/demo.out 2>&1 || { echo "$id demo fails on the unchanged tree"; tail -5 /tmp/demo.out; exit 8; }
git apply $D/patch.diff || { echo "$id does not apply"; exit 7; }
trap 'git -C /repo checkout -q -- .' EXIT
bash $D/demo.sh >/tmp/demo.out 2>&1; d=$?
if [ -z "$NOTESTS" ]; then
bash /opt/vp/test.sh /tmp/bug.json >/tmp/bug.log 2>&1
lost=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); k=[k for k in b if 'pass' in k or 'stable' in k][0]
o=json.load(open('/tmp/bug.json')); p=set(o.get('passed') or o.get('pass'))
print(len(set(b[k])-p), sorted(set(b[k])-p)[:3])")
fi
for p in $P; do
  (cd /verif && XPY_EVIDENCE=/tmp/bugev timeout 900 /opt/venv/bin/python -W ignore harness/check.py --property $p --tier quick >/tmp/check.out 2>/tmp/check.err); c=$?
  echo "$id demo=$d lost=$lost $p check=$c $(grep -c VIOLATION /tmp/check.out)"
  grep -A1 VIOLATION /tmp/check.out | sed -n 2p | cut -c1-250
  [ $c -gt 1 ] && tail -3 /tmp/check.err
done
