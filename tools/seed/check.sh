#!/bin/bash
# check.sh ID [PROP..]: demo (clean and patched) and checks in a scratch copy of /repo, so that several can run side by side
id=$1; shift; d=/verif/seeded/$id; w=$(mktemp -d /tmp/seedw.XXXXXX)
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
trap 'rm -rf "$w"' EXIT
cp -a /repo $w/r; cp -r $d $w/d
( cd $w/r && bash $w/d/demo.sh >$w/o0 2>&1 ); a=$?
( cd $w/r && git apply $w/d/patch.diff ) || exit 4
if grep -q '\.cpp' $w/d/patch.diff; then ext=$(cd /verif && DST_REPO=$w/r ./run.sh -c "from dst import env; print(env.ensure_ext()[0])"); cp $ext/*.so $w/r/; fi
( cd $w/r && bash $w/d/demo.sh >$w/o1 2>&1 ); b=$?
echo "$id demo: clean $a patched $b | $(tail -1 $w/o1 | cut -c1-200)"; [ $a = 0 ] || tail -5 $w/o0
for p in $prop "$@"; do
  s=$(date +%s); (cd /verif && DST_REPO=$w/r VERIF_SEED=1 ./run.sh check.py --property $p --tier quick > $w/chk 2>&1); c=$?
  echo "$id check $p: rc $c in $(($(date +%s)-s)) s: $(grep -ho 'VIOLATION.*' $w/chk) $(grep -m1 "^$p:" $w/chk | cut -c1-300)"
  [ $c = 2 ] && tail -5 $w/chk
done
