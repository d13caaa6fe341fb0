#!/bin/bash
# proveseed.sh ID : only the proof, on a scratch copy of the sources with the planted change
S=/verif/seeded/$1
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
D=$(mktemp -d /tmp/ps-XXXX)
mkdir -p $D/src && cp -a /repo/src/rfsed $D/src/ 2>/dev/null
rm -rf $D/src/rfsed/examples $D/src/rfsed/data
(cd $D && git init -q . && git apply $S/patch.diff) || echo "apply failed"
RFSED_SRC=$D/src timeout 900 python3-vt /verif/pyvc/run.py ${2:-$P} > $D/log 2>&1
echo "== $1"; grep -E "obligations|FAILED|UNSUPP" $D/log | cut -c1-300
rm -rf "$D"
