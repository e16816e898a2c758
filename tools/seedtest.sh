#!/bin/bash
# usage: seedtest.sh ID [check]   -- confirms a planted bug in a private copy of /repo (bind mount in a user namespace)
ID=$1; S=/verif/seeded/$ID; W=$(mktemp -d /tmp/seedXXXXXX)
cp -a /repo "$W/repo"; cp -a "$S" "$W/demo"
export W S ID CHECK=$2
unshare -Urm bash -c '
mount --bind $W/repo /repo; cd /repo
bash /opt/vp/build.sh > $W/b0.log 2>&1 || echo "base build failed"
( bash $W/demo/demo.sh > $W/d0.log 2>&1 ); echo "$ID demo clean rc=$?"
git apply $S/patch.diff || exit 1
if [ "$CHECK" != only ]; then
bash /opt/vp/test.sh $W/out.json > $W/t.log 2>&1
python3 - <<P
import json,os
o=json.load(open(os.environ["W"]+"/out.json")); b=json.load(open("/opt/vp/BASELINE.json"))["stable"]
m=[x for x in b if x not in set(o["passed"])]
print(os.environ["ID"],"tests missing:",m[:3] if m else "none")
P
( bash $W/demo/demo.sh > $W/d1.log 2>&1 ); echo "$ID demo patched rc=$?"; tail -2 $W/d1.log
fi
if [ -n "$CHECK" ]; then
P=$(python3 -c "import json;print(json.load(open(\"$S/meta.json\"))[\"property\"])")
cp -a /verif $W/verif; cd $W/verif; timeout 900 python3-vt check.py $P quick > $W/c.log 2>&1; echo "$ID check $P rc=$?"; grep VIOLATION $W/c.log | head -3
fi
'
rm -rf "$W"
