#!/bin/bash
# seed_test.sh ID [nocheck]: confirms a planted bug (applies, builds, stable tests
# pass, demo 0 -> nonzero) and runs its property's check on it; undoes it.
id=$1; S=/verif/seeded/$id
cd /repo && [ -z "$(git status --porcelain)" ] || { echo "/repo dirty"; exit 2; }
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
if [ "$2" != fast ]; then
bash /opt/vp/build.sh >/tmp/sb.log 2>&1; ( time bash $S/demo.sh ) >/tmp/sd0.log 2>&1 || { echo "$id: demo fails on clean tree"; tail -12 /tmp/sd0.log; exit 2; }
fi
git apply $S/patch.diff || exit 2
trap 'git -C /repo checkout -- .' EXIT
if [ "$2" != fast ]; then
bash /opt/vp/build.sh >/tmp/sb.log 2>&1 || { echo "$id: build fails"; tail -12 /tmp/sb.log; exit 2; }
bash /opt/vp/test.sh /tmp/st.json >/tmp/st.log 2>&1
python3 - <<PY || exit 2
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=json.load(open('/tmp/st.json'))
p=set(r['passed']); m=b-p
print('$id: tests', 'ok' if not m else 'FAIL %s'%m)
raise SystemExit(1 if m else 0)
PY
bash $S/demo.sh >/tmp/sd1.log 2>&1 && { echo "$id: demo passes with the bug"; exit 2; }
echo "$id: demo ok"
fi
[ "$2" = nocheck ] && exit 0
cd /verif; ( time python3-vt run.py $P ) > /tmp/sc.log 2>&1; rc=$(grep -c "^VIOLATION property=$P" /tmp/sc.log)
echo "$id: $P $([ $rc = 1 ] && echo CAUGHT || echo MISSED) $(grep ^real /tmp/sc.log)"; [ $rc = 1 ] || tail -5 /tmp/sc.log
