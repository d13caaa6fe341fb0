#!/bin/bash
# tryseed.sh ID [notests|tests "test paths"]: demo without and with the patch, and the stable tests with it, on /repo's tree (undone afterwards)
S=/verif/seeded/$1
git -C /repo diff --quiet || { echo dirty; exit 2; }
(cd /repo && timeout 300 "$S/demo.sh" >/tmp/demo0.log 2>&1); a=$?
git -C /repo apply "$S/patch.diff" || exit 2
(cd /repo && timeout 300 "$S/demo.sh" >/tmp/demo1.log 2>&1); b=$?
echo "$1 demo clean=$a patched=$b"; tail -2 /tmp/demo1.log
if [ "$2" = check ]; then
  P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  cd /verif && python3 check.py $P > /tmp/seedcheck-$1.log 2>&1; echo "check rc=$?"; grep -E "VIOLATION|discharged" /tmp/seedcheck-$1.log
fi
git -C /repo checkout -q -- .
