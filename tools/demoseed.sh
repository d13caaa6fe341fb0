#!/bin/bash
# demoseed.sh ID...: the demonstrations on the unchanged sources and on a scratch copy with the planted change (does not touch /repo)
for id in "$@"; do
S=/verif/seeded/$id
D=$(mktemp -d /tmp/ds-XXXX)
mkdir -p $D/src && cp -a /repo/src/rfsed $D/src/
(cd $D && git init -q .)
(cd $D && PYTHONPATH=$D/src timeout 300 "$S/demo.sh" >$D/0.log 2>&1); a=$?
(cd $D && git apply $S/patch.diff) || echo "apply failed"
find $D -name __pycache__ -prune -exec rm -rf {} + 2>/dev/null
(cd $D && PYTHONPATH=$D/src timeout 300 "$S/demo.sh" >$D/1.log 2>&1); b=$?
echo "$id clean=$a patched=$b $(tail -1 $D/1.log | cut -c1-150)"
[ $a = 0 ] || tail -5 $D/0.log
rm -rf "$D"
done
