#!/bin/bash
# plant.sh ID [notest]: checks one planted bug in a scratch copy of /repo: applies, demo clean/patched, stable tests, detection
ID=${1:?}; S=/verif/seeded/$ID; W=/tmp/plant-$ID
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
rm -rf "$W"; mkdir -p "$W"; git -C /repo archive HEAD | tar x -C "$W"; (cd "$W"; git init -q; git add -A; git -c user.name=x -c user.email=x@x commit -qm x)
export PYTHONPATH=$W PYTHONDONTWRITEBYTECODE=1
D=/tmp/plantdemo-$ID; rm -rf "$D"; cp -r "$S" "$D"; rm -f "$D"/*.diff "$D"/meta.json
(cd "$W"; timeout 300 bash "$D/demo.sh" >/tmp/demo-$ID.clean 2>&1); c=$?
(cd "$W"; git apply "$S/patch.diff") || { echo "$ID: DOES NOT APPLY"; exit 1; }
(cd "$W"; timeout 300 bash "$D/demo.sh" >/tmp/demo-$ID.bad 2>&1); b=$?
t=skipped
if [ "$2" != notest ]; then
  sed "s#cd /repo#cd $W#; /opt\/vp\/logs/d" /opt/vp/test.sh > /tmp/test-$ID.sh
  bash /tmp/test-$ID.sh /tmp/test-$ID.json >/dev/null 2>&1
  t=$(python3 - /tmp/test-$ID.json $W <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
m=sorted(set(b['stable'])-set(x.replace(sys.argv[2],'/repo') for x in t['passed'])); print('missing=%d %s'%(len(m),m[:3]))
P
)
fi
unset PYTHONPATH
# evidence goes elsewhere
MC_EVIDENCE=/tmp/ev-$ID MC_REPO=$W timeout 900 /opt/venv/bin/python -W ignore /verif/mc/run.py $P --quick > /tmp/det-$ID.txt 2>&1; r=$?
echo "$ID ($P): demo clean=$c patched=$b tests: $t check rc=$r $(grep -c '^VIOLATION' /tmp/det-$ID.txt) $(grep '^what' /tmp/det-$ID.txt | head -1 | cut -c1-200)"
rm -rf "$W" "$D" /tmp/test-$ID.* /tmp/ev-$ID
