#!/bin/bash
# demos.sh ID...: runs only the demonstrations, clean and patched, in a scratch copy
for ID in "$@"; do
S=/verif/seeded/$ID; W=/tmp/demos-$ID; rm -rf "/tmp/demos-$ID"; mkdir -p "$W"; git -C /repo archive HEAD | tar x -C "$W"; (cd "$W"; git init -q)
D=/tmp/demosd-$ID; rm -rf "/tmp/demosd-$ID"; cp -r "$S" "$D"; rm -f "$D"/*.diff "$D"/meta.json
export PYTHONPATH=$W PYTHONDONTWRITEBYTECODE=1
(cd "$W"; timeout 300 bash "$D/demo.sh" >/tmp/demo-$ID.clean 2>&1); c=$?
(cd "$W"; git apply "$S/patch.diff" || echo NOAPPLY; timeout 300 bash "$D/demo.sh" >/tmp/demo-$ID.bad 2>&1); b=$?
echo "$ID clean=$c patched=$b $(tail -1 /tmp/demo-$ID.clean | cut -c1-150) | $(tail -1 /tmp/demo-$ID.bad | cut -c1-150)"
rm -rf "/tmp/demos-$ID" "/tmp/demosd-$ID"
done
