#!/bin/bash
# seedtest.sh ID : validates seeded/ID in a scratch copy of /repo
id=$1; d=/verif/seeded/$id; w=/tmp/seed_$id
rm -rf "$w"; cp -a /repo "$w"
cd "$w" && git checkout -q -- .
git apply --check $d/patch.diff || { echo "$id: patch does not apply"; rm -rf "$w"; exit 1; }
mkdir -p /tmp/demo_$id; cp -r $d/. /tmp/demo_$id/; rm -f /tmp/demo_$id/patch.diff /tmp/demo_$id/meta.json
(cd "$w"; PYTHONPATH=$w bash /tmp/demo_$id/demo.sh >/tmp/demo_$id.log0 2>&1); a=$?
git apply $d/patch.diff
(cd "$w"; PYTHONPATH=$w bash /tmp/demo_$id/demo.sh >/tmp/demo_$id.log1 2>&1); b=$?
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /verif; SA_REPO=$w python3 -m sa.run $p > /tmp/demo_$id.chk 2>&1; c=$?
v=$(grep -c "^VIOLATION property=$p" /tmp/demo_$id.chk)
echo "$id: demo clean=$a patched=$b check($p) exit=$c violation=$v"
rm -rf "$w" "/tmp/demo_$id"
