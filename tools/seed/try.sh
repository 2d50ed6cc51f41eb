#!/bin/bash
# try.sh ID [tests|notests]: does the planted bug hold up (in a scratch copy), and does its check catch it (against /repo, patched)?
id=$1; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo diff --quiet || { echo "/repo is dirty"; exit 3; }
fin() { git -C /repo checkout -q -- . ; bash /opt/vp/build.sh >/dev/null; }
trap fin EXIT
cp -r $d /tmp/demo-$id
( cd /repo && bash /tmp/demo-$id/demo.sh >/tmp/demo-$id/out0 2>&1 ); a=$?
git -C /repo apply $d/patch.diff || exit 4
bash /opt/vp/build.sh 2>&1 | tail -1
( cd /repo && bash /tmp/demo-$id/demo.sh >/tmp/demo-$id/out1 2>&1 ); b=$?
echo "demo: clean $a patched $b"; [ $a = 0 ] || tail -5 /tmp/demo-$id/out0; tail -2 /tmp/demo-$id/out1
for p in $prop $3; do
  s=$(date +%s); (cd /verif && VERIF_SEED=1 ./run.sh check.py --property $p --tier quick > /tmp/demo-$id/chk 2>&1); c=$?
  echo "check $p: rc $c in $(($(date +%s)-s)) s: $(grep -h VIOLATION /tmp/demo-$id/chk) $(grep -m1 "^$p:" /tmp/demo-$id/chk | cut -c1-300)"
done
if [ "$2" = tests ]; then bash /opt/vp/test.sh /tmp/demo-$id/t.json >/tmp/demo-$id/t.log 2>&1
python3 - <<P
import json
r=json.load(open('/tmp/demo-$id/t.json')); st=json.load(open('/opt/vp/BASELINE.json'))['stable']
ok=set(r.get('passed',[])); print('stable failing:',[x for x in st if x not in ok])
P
fi
rm -rf "/tmp/demo-$id"
