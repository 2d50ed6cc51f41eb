#!/bin/bash
# stable.sh ID..: stable tests with a planted bug, on a copy bound over /repo in a private mount namespace (the real /repo is untouched)
for id; do
  d=/verif/seeded/$id; w=$(mktemp -d /tmp/seeds.XXXXXX); cp -a /repo $w/r; rm -f $w/r/tests/testing.segy.hdf5
  ( cd $w/r && git apply $d/patch.diff ) || { echo "$id: does not apply"; rm -rf "$w"; continue; }
  unshare -Urm bash -c "mount --bind $w/r /repo && bash /opt/vp/test.sh $w/t.json" >$w/log 2>&1
  python3 - "$w/t.json" "$id" <<'P'
import json, sys
ok = set(json.load(open(sys.argv[1])).get("passed", [])); st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
print(sys.argv[2], "stable failing:", [x for x in st if x not in ok], flush=True)
P
  rm -rf "$w"
done
