#!/bin/bash
# concseed.sh ID [BUDGET] [SEED]: only the concrete part of the check, on a scratch copy with the planted change
S=/verif/seeded/$1
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
D=$(mktemp -d /tmp/cs-XXXX)
mkdir -p $D/src && cp -a /repo/src/rfsed $D/src/
(cd $D && git init -q . && git apply $S/patch.diff 2>/dev/null) || echo "apply failed"
find $D -name __pycache__ -prune -exec rm -rf {} + 2>/dev/null
cd /verif
for s in 0 1 2; do
PYTHONPATH=$D/src PYTHONDONTWRITEBYTECODE=1 MPLCONFIGDIR=$D/mpl OPENBLAS_NUM_THREADS=1 timeout 900 /opt/venv/bin/python conc/run.py $P --seed ${3:-1} --shard $s --budget ${2:-45} --out $D/o.$s > $D/e.$s 2>&1 &
done; wait
python3 - <<X
import json
n=0; w=''
for s in range(3):
    try: d=json.load(open('$D/o.%d'%s))
    except Exception as e: print('CRASH', e); continue
    n+=len(d['violations'])
    for v in d['violations'][:1]: w=str(v['failed'])[:160]
print('$1', 'CONC', 'caught %d'%n if n else 'MISSED', w)
X
rm -rf "$D"
