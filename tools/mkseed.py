"""Make /verif/seeded/<id>/ from an edit: used while planting bugs, not by any check.
mkseed(id, prop, [(file, old, new)...], needs, breaks, demo)"""
import json
import os
import shutil
import subprocess
import tempfile

SEEDED = '/verif/seeded'
PY = '/opt/venv/bin/python'
SH = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1
D=$(mktemp -d) || exit 2
trap 'rm -rf "$D"' EXIT
export MPLCONFIGDIR="$D/mpl" SCRATCH="$D"
mkdir -p "$MPLCONFIGDIR"
/opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def mkseed(sid, prop, edits, needs, breaks, demo):
    d = os.path.join(SEEDED, sid)
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='seed-')
    try:
        w = os.path.join(tmp, 'repo')
        subprocess.check_call(['git', 'clone', '-q', '/repo', w])
        for f, old, new in edits:
            p = os.path.join(w, f)
            s = open(p).read()
            assert s.count(old) == 1, (sid, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git', '-C', w, 'diff']).decode()
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        # at least one removed line must be the original repository's own
        base = subprocess.check_output(['git', '-C', w, 'rev-list', '--max-parents=0', 'HEAD']).decode().split()[0]
        own = 0
        for f in sorted({e[0] for e in edits}):
            bl = subprocess.check_output(['git', '-C', w, 'blame', '-s', 'HEAD', '--', f]).decode().split('\n')
            orig = {x.split(') ', 1)[1] for x in bl if x and x.lstrip('^').startswith(base[:7])}
            for x in subprocess.check_output(['git', '-C', w, 'diff', '-U0', '--', f]).decode().split('\n'):
                if x.startswith('-') and not x.startswith('---'):
                    own += x[1:] in orig
                    if x[1:] not in orig:
                        print(sid, 'removes a line added later:', x)
        print(sid, 'original lines changed:', own)
        open(os.path.join(d, 'demo.sh'), 'w').write(SH)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        open(os.path.join(d, 'demo.py'), 'w').write(demo)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    finally:
        shutil.rmtree(tmp)
    return d
