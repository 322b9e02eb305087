#!/bin/bash
# trybug.sh ID [notests]: confirm a planted bug in a scratch copy of /repo (stable tests pass, demo
# passes without and fails with the patch), then run its property's check against the copy.
id=$1
b=/verif/seeded/$id
d=/tmp/pb-$id
rm -rf "$d"; cp -a /repo "$d"
cd "$d" && git checkout -q -- .
prop=$(python3 -c "import json;print(json.load(open('$b/meta.json'))['property'])")
demo=/tmp/pbdemo-$id; rm -rf "$demo"; mkdir -p "$demo"; cp -r "$b"/. "$demo"; rm -f "$demo"/*.diff "$demo"/meta.json
(cd "$d" && timeout 300 bash "$demo/demo.sh" >/tmp/pb-$id.clean 2>&1); c0=$?
git apply "$b/patch.diff" || { echo "$id PATCH DOES NOT APPLY"; exit 1; }
(cd "$d" && timeout 300 bash "$demo/demo.sh" >/tmp/pb-$id.bug 2>&1); c1=$?
echo "$id $prop demo clean=$c0 bug=$c1"
if [ "$2" != notests ]; then
  sed -e "s#cd /repo#cd $d#" -e "s#^refresh_install#export PYTHONPATH=$d#" /opt/vp/test.sh > /tmp/pbtest-$id.sh
  sed -i "s#^\. /opt/vp/env.sh#. /opt/vp/env.sh; export PYTHONPATH=$d#" /tmp/pbtest-$id.sh
  bash /tmp/pbtest-$id.sh /tmp/pb-$id.json >/tmp/pb-$id.tests 2>&1
  echo "$id tests: $(python3 /verif/tools/stable.py /tmp/pb-$id.json | tail -3)"
fi
if [ "$2" != nocheck ] && [ "$3" != nocheck ]; then
  (cd /verif && VSIM_REPO=$d ./check $prop --no-evidence >/tmp/pb-$id.check 2>&1); echo "$id check rc=$? $(grep -c ^VIOLATION /tmp/pb-$id.check) $(grep -m1 '^violation' /tmp/pb-$id.check | cut -c1-200)"
fi
rm -rf "$d" "$demo" /tmp/pbtest-$id.sh
